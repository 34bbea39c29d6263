"""Scenarios: contracts written as Python functions that the engine analyses together with the code.

A scenario function states, for arbitrary inputs, what must be observable after calls into the
repository.  Nothing is executed: the function body, like the code it calls, is interpreted over
value numbers, and every obligation (`expect`, `same`) is decided on every path.
"""
from __future__ import annotations
import ast
import signal
import sys
import time
import traceback
from .terms import *
from .values import *
from .interp import *
from .objects import *
from .natives import *
from .loops import *
from .compare import *

GOODLITS = {"eq", "in", "isinst", "isnone", "le", "lt", "eqn", "exists", "truth", "hasattr", "is", "not", "raises", "excis"}
WEIRD = {"vcall", "ures", "cmp", "arreq", "bin", "foldn", "modpath"}


from . import frontend, kernels as generated  # noqa: E402
from .simkernels import Kernels, HOOKS as KERNEL_HOOKS, isclose_hook  # noqa: E402


class Engine(Kernels, Loops):
    def __init__(self):
        super().__init__()
        self.obligations = 0
        self.cfg = {}
        self.ext_hooks = dict(KERNEL_HOOKS)

    def is_cache_field(self, o, f):
        cls = self.class_of(o)
        if not isinstance(cls, ClassV):
            return False
        ca = self.class_lookup(cls, f)
        return isinstance(ca, PropV)

    def cls(self, name):
        """Public class by name."""
        for c in self.classes:
            if c.name == name:
                return c
        raise Anchor(f"class {name}")


class Anchor(Exception):
    """A public name the contract refers to is gone."""


MODULES = ["dwave.gate", "dwave.gate.operations", "dwave.gate.operations.operations", "dwave.gate.operations.base", "dwave.gate.tools",
           "dwave.gate.qir", "dwave.gate.qir.compiler", "dwave.gate.qir.loader", "dwave.gate.qir.instructions",
           "dwave.gate.simulator.simulator", "dwave.gate.registers.registers", "dwave.gate.registers.cyregister", "dwave.gate.circuit",
           "dwave.gate.primitives", "dwave.gate.tools.unitary", "dwave.gate.tools.counters"]


def new_engine(modules=MODULES):
    sys.setrecursionlimit(30000)
    I = Engine()
    I.primitives = PRIMS
    I.overrides = dict(Engine.overrides)
    for m in modules:
        if I.load_module(m) is None:
            raise Anchor(f"module {m}")
    I.sources = {}
    for m in ("dwave.gate.mixedproperty",):      # modelled natively elsewhere, analysed itself in its own contracts
        I.sources[m] = super(Natives, I).load_module(m)
        I.modules.pop(m, None)
    setup(I)
    return I


def kernel_wrappers(I):
    """The generated Cython wrappers, as the module they become part of."""
    name = "dwave.gate.simulator.generated_ops"
    try:
        frontend._cache[(frontend.REPO, name)] = generated.wrapper_module()
    except (generated.GenerationFailed, SyntaxError, frontend.FrontendError) as e:
        raise Anchor(f"generated wrappers: {e}")
    m = super(Natives, I).load_module(name)
    I.modules.pop(name)
    return m


def setup(I):
    """Types of fields, found through the public accessors."""
    C = I.cls
    I.regelem = {"QuantumRegister": Inst(C("Qubit")), "ClassicalRegister": Inst(C("Bit")), "SelfIncrementingRegister": Inst(C("Variable"))}
    for q in ("Register.__iter__",):
        f = I.class_lookup(C("Register"), "__iter__")
        if isinstance(f, FuncV) and is_super_forward(f):
            I.trivial = set(I.trivial) | {f.qual}
    I.overrides[C("IDCounter").qual + ".next"] = next_id
    cnt = I.class_lookup(C("IDCounter"), "next")
    op = Inst(C("Operation"))
    qb, bit, var = Inst(C("Qubit")), Inst(C("Bit")), Inst(C("Variable"))
    table = [
        ("Circuit", "circuit", List(op)),
        ("Circuit", "qregisters", ("dict", STR, Inst(C("QuantumRegister")))),
        ("Circuit", "cregisters", ("dict", STR, Inst(C("ClassicalRegister")))),
        ("Circuit", "state", Opt(ARRAY)),
        ("Circuit", "density_matrix", Opt(ARRAY)),
        ("Circuit", "context", Opt(Inst(C("CircuitContext")))),
        ("CircuitContext", "circuit", Inst(C("Circuit"))),
        ("CircuitContext", "frozen", BOOL),
        ("Operation", "qubits", Opt(("tuple", qb))),
        ("ParametricOperation", "parameters", List(ANY)),
        ("ControlledOperation", "control", Opt(("tuple", qb))),
        ("ControlledOperation", "target", Opt(("tuple", qb))),
        ("Measurement", "bits", Opt(("tuple", bit))),
        ("Measurement", "state", Opt(ARRAY)),
        ("Qubit", "label", ANY), ("Qubit", "id", STR),
        ("Bit", "label", ANY), ("Bit", "id", STR), ("Bit", "value", Opt(INT)),
        ("Variable", "name", STR), ("Variable", "value", Opt(NUM)),
        ("Register", "frozen", BOOL),
    ]
    I.fieldtypes = {}
    I.accessor = {}
    # field kinds the constructors establish
    for cn in ("Circuit", "ParametricCircuit", "Qubit", "Bit", "Variable", "Register", "QuantumRegister", "ClassicalRegister", "SelfIncrementingRegister"):
        c = C(cn)
        st0 = I.st.clone()
        try:
            args = [sym("label#0")] if cn in ("Qubit", "Bit", "Variable") else []
            paths = I.explore(st0, lambda: I.call(c, args, {}), tag="setup")
        except Unsupported:
            continue
        for p in paths:
            if p.kind != "ok":
                continue
            for (o, f), v in p.st.fields.items():
                if o == p.value:
                    old = I.st
                    I.st = p.st
                    k = I.typ(v) if isinstance(v, (Term, Ref)) else ANY
                    I.st = old
                    t = BOOL if k == BOOL else ("dict", ANY, ANY) if k[0] == "dict" else List(ANY) if k[0] == "list" else \
                        Opt(ANY) if k[0] == "none" else k if k[0] in ("int", "str", "inst") else ANY
                    if not any((k.name, f) in I.fieldtypes for k in c.mro):
                        I.fieldtypes[(cn, f)] = t
    for cn, attr, ty in table:
        c = C(cn)
        if I.class_lookup(c, attr) is None:
            raise Anchor(f"{cn}.{attr}")
        o = sym(f"disc:{cn}")
        st0 = I.st.clone()
        st0.types[o] = Inst(c)
        try:
            paths = I.explore(st0, lambda: I.getattr(o, attr), tag="discover")
        except Unsupported:
            continue
        for p in paths:
            if p.kind == "ok" and isinstance(p.value, Term) and p.value.op == "fld" and p.value.args[0] == o:
                fresh = I.fieldtypes.get((cn, p.value.args[1]))
                I.fieldtypes[(cn, p.value.args[1])] = Opt(ty) if fresh and fresh[0] == "opt" and ty[0] != "opt" else ty
                I.accessor[(cn, attr)] = p.value.args[1]
    # the parameter register is handed out by the context
    for cn, meth, arg, ty in (("Operation", "conditional", List(bit), Opt(List(bit))),):
        o, a = sym(f"disc:{cn}"), sym("disc:arg")
        st0 = I.st.clone()
        st0.types[o] = Inst(C(cn))
        st0.types[a] = arg
        ran = []

        def go():
            try:
                I.call(I.getattr(o, meth), [a], {})
            finally:
                ran.append(I.st)
        try:
            I.explore(st0, go, tag="discover")
        except Unsupported:
            pass
        for st in ran:
            for (x, f), v in st.fields.items():
                old, I.st = I.st, st
                w = I.snap(v) if isinstance(v, Ref) else v
                I.st = old
                if x == o and (v == a or (cn, "condition") not in I.accessor and isinstance(w, Term) and occurs(w, a)):
                    I.fieldtypes[(cn, f)] = ty
                    I.accessor[(cn, "condition")] = f
    for cn, attr, ty in (("Operation", "_num_qubits", Opt(INT)), ("ParametricOperation", "_num_params", Opt(INT)),
                         ("ControlledOperation", "_num_control", Opt(INT)), ("ControlledOperation", "_num_target", Opt(INT))):
        I.clsattrtypes[(cn, attr)] = ty
        I.fieldtypes.setdefault((cn, attr), ty)
    ctx = I.fieldtypes
    for k in list(I.st.fields):
        pass
    # the parameter register of a parametric circuit
    pc = C("ParametricCircuit")
    for (cn, f), t in list(I.fieldtypes.items()):
        if cn == "ParametricCircuit" and t[0] == "inst" and t[1].name == "SelfIncrementingRegister":
            I.accessor[("ParametricCircuit", "parameters")] = f
    I.memo.clear()


def is_super_forward(f):
    """def m(self, ...): return super().m(...)"""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return (len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Call)
            and isinstance(body[0].value.func, ast.Attribute) and body[0].value.func.attr == f.name
            and isinstance(body[0].value.func.value, ast.Call) and isinstance(body[0].value.func.value.func, ast.Name)
            and body[0].value.func.value.func.id == "super")


def next_id(I, f, args, kwargs):
    t = I.fresh("uid", STR)
    I.st.facts["uids"] = I.st.facts.get("uids", ()) + (t,)
    return t


# ------------------------------------------------------------------ primitives
PRIMS = {}


def prim(f):
    PRIMS[f.__name__.rstrip("_")] = f
    return f


def named(I, base):
    n = I.cfg.setdefault("names", {})
    return base


def _sym(I, name, ty):
    t = sym("$" + name)
    while t in I.st.types:
        name += "'"
        t = sym("$" + name)
    I.st.types[t] = ty
    return t


def _name(n, default):
    return cval(n) if isinstance(n, Term) and is_str_const(n) else default


@prim
def any_inst(I, cls, name=None):
    return _sym(I, _name(name, cls.name if isinstance(cls, ClassV) else "x"), Inst(cls))


@prim
def source(I, name):
    """A module that the other contracts take as modelled."""
    if cval(name) == "dwave.gate.simulator.ops" and cval(name) not in I.sources:
        I.sources[cval(name)] = kernel_wrappers(I)
    m = I.sources.get(cval(name))
    if m is None:
        raise Anchor(f"module {cval(name)}")
    return m


@prim
def handed_out(I):
    """Identifiers the counter was asked for."""
    return T("tuple", seq([one(t) for t in I.st.facts.get("uids", ())]))


@prim
def enumerators(I, c):
    """The enumerations among the attributes of a class."""
    f = I.st.fields
    names = {n for (o, n) in f if o == c} | set(I.st.frames.get(getattr(c, "fid", None), {}))
    out = [I.getattr(c, n) for n in sorted(names) if not n.startswith("$")]
    out = [x for x in out if isinstance(x, EnumV)]
    if len(out) != 1:
        raise Unsupported(f"{len(out)} enumerations in the counter")
    return out[0]


@prim
def place(I, e, pos):
    """Moves an enumeration."""
    I.st.cont[e.ref] = pos
    return NONE


@prim
def spot(I, e):
    """(number of letters, position) of an enumeration."""
    return T("tuple", seq([one(e.r), one(I.st.cont[e.ref])]))


@prim
def letters_of(I, e):
    """The letters an enumeration draws from: repeated letters give equal members."""
    return e.letters


@prim
def combinations_of(I, e):
    """How many members an enumeration has."""
    n = T("ncomb", e.kind, e.letters, e.r)
    I.st.types[n] = INT
    return n


@prim
def member(I, e, r, pos):
    """Member of an enumeration's family."""
    t = T("joined", e.kind, e.letters, r, pos)
    I.st.types[t] = STR
    return t


@prim
def drawn(I):
    """(kind, number of letters, position, joined) of all members drawn so far."""
    out = []
    for x in I.st.trace:
        c = x.args[0]
        if isinstance(c, Term) and c.op == "combo":
            t = T("joined", *c.args)
            I.st.types[t] = STR
            out.append(one(T("tuple", seq([one(const(c.args[0])), one(c.args[2]), one(c.args[3]), one(t)]))))
    return T("tuple", seq(out))


@prim
def any_opt(I, cls, name=None):
    return _sym(I, _name(name, cls.name), Opt(Inst(cls)))


@prim
def any_value(I, name=const("v")):
    return _sym(I, _name(name, "v"), ANY)


@prim
def any_int(I, name=const("n"), lo=None, hi=None):
    t = _sym(I, _name(name, "n"), INT)
    if lo is not None and lo is not NONE:
        I.assume(I.rel(lo, "<=", t), True)
    if hi is not None and hi is not NONE:
        I.assume(I.rel(t, "<=", hi), True)
    return t


@prim
def any_num(I, name=const("x")):
    return _sym(I, _name(name, "x"), NUM)


@prim
def any_str(I, name=const("s")):
    return _sym(I, _name(name, "s"), STR)


@prim
def any_bool(I, name=const("b")):
    t = _sym(I, _name(name, "b"), BOOL)
    return const(I.branch(T("truth", t)))


@prim
def any_index(I, S, name=const("i")):
    """An arbitrary position in the sequence (none if it is empty)."""
    n = I.native_len(S) if hasattr(I, "native_len") else length(I.items(S))
    if not I.branch(I.rel(const(1), "<=", n)):
        raise Infeasible
    t = _sym(I, _name(name, "i"), INT)
    I.assume(I.rel(const(0), "<=", t), True)
    I.assume(I.rel(t, "<", n), True)
    return t


@prim
def any_array(I, name=const("a")):
    t = _sym(I, _name(name, "a"), ARRAY)
    I.noalias = set(getattr(I, "noalias", ())) | {t}
    return t


@prim
def any_seq(I, cls, name=const("seq"), distinct_=FALSE):
    ty = ANY if cls is NONE else Inst(cls) if isinstance(cls, ClassV) else {"int": INT, "str": STR, "float": NUM, "complex": NUM}[cls.name]
    t = _sym(I, _name(name, "seq"), List(ty))
    I.noalias = set(getattr(I, "noalias", ())) | {t}
    if distinct_ is TRUE:
        I.distinct_terms = set(I.distinct_terms) | {t}
    return t


@prim
def any_class(I, cls, name=None):
    """An arbitrary subclass of cls."""
    t = _sym(I, _name(name, cls.name), Inst(cls))
    return T("typeof", t)


@prim
def any_circuit(I, name=const("circ"), cls=None, cached=TRUE):
    cls = None if cls == NONE else cls
    c = _sym(I, _name(name, "circ"), Inst(cls or I.cls("Circuit")))
    if cls is None or cls.name == "Circuit":
        I.assume(T("isinst", c, I.cls("ParametricCircuit")), False)
    if cached is TRUE:
        present = I.choose(2) == 0
        cl = I.class_of(c)
        for k in (I.cls("Circuit").mro):
            fr = I.st.frames[k.fid]
            for f, v in list(fr.items()):
                if isinstance(v, PropV) and v.kind == "cached":
                    I.st.fields[(c, f)] = DELETED
                    if present:
                        del I.st.fields[(c, f)]
                        I.st.fields[(c, f)] = I.call(v.fget, [c], {})
    recorded(I, c, cls is not None and I.cls("ParametricCircuit") in cls.mro)
    own_context(I, c, cls is not None and I.cls("ParametricCircuit") in cls.mro)
    return c


@prim
def only(I, c, cls, qubits=NONE, parameters=NONE):
    """Assumes that every operation of the circuit is of the class, and has as many qubits and parameters as its kind."""
    ops = T("fld", c, I.accessor[("Circuit", "circuit")])
    I.st.types[ops] = List(Inst(cls))
    for n, key in ((qubits, ("Operation", "qubits")), (parameters, ("ParametricOperation", "parameters"))):
        if is_const(n) and cval(n) and key in I.accessor:
            x = T("fld", at(ops, bv(93)), I.accessor[key])
            I.st.facts["minlen"] = I.st.facts.get("minlen", ()) + ((93, x, cval(n), cval(n)),)
    return NONE


def recorded(I, c, parametric):
    """Every recorded operation has qubits that belong to the circuit; measured bits belong to it too.

    A circuit without variables records only parameter values."""
    fo, fq, fr = (I.accessor.get(k) for k in (("Circuit", "circuit"), ("Operation", "qubits"), ("Circuit", "qregisters")))
    if not (fo and fq and fr):
        return
    ops, regs = T("fld", c, fo), T("fld", c, fr)
    H, K = 91, 92
    q = T("fld", at(ops, bv(H)), fq)
    n = seqlen(ops)
    vals = T("vals", regs)
    fs = I.st.facts.get("foralls", ())
    fp, fb, fc = (I.accessor.get(k) for k in (("ParametricOperation", "parameters"), ("Measurement", "bits"), ("Circuit", "cregisters")))
    if fp and not parametric:
        ps = T("fld", at(ops, bv(H)), fp)
        fs = fs + ((((H, n), (K, seqlen(ps))), T("isinst", at(ps, bv(K)), I.cls("Variable")), False),)
    if fb and fc:
        bs, cr = T("fld", at(ops, bv(H)), fb), T("vals", T("fld", c, fc))
        held = exists_lit(1, seqlen(cr), ite(T("in", at(bs, bv(K)), T("items", at(cr, bv(1)))), TRUE, FALSE))
        fs = fs + ((((H, n), (K, seqlen(bs))), held, True),)
    I.st.facts["minlen"] = I.st.facts.get("minlen", ()) + ((H, q, 1),)
    member = exists_lit(1, seqlen(vals), ite(T("in", at(q, bv(K)), T("items", at(vals, bv(1)))), TRUE, FALSE))
    I.st.facts["foralls"] = fs + ((((H, n),), T("isnone", q), False), (((H, n), (K, seqlen(q))), member, True))


def own_context(I, c, parametric):
    """A context belongs to its circuit and has its circuit's kind."""
    f = I.accessor.get(("Circuit", "context"))
    g = I.accessor.get(("CircuitContext", "circuit"))
    if f and g:
        ctx = T("fld", c, f)
        I.st.fields[(ctx, g)] = c
        I.st.types[ctx] = Opt(Inst(I.cls("CircuitContext"))) if not parametric else Opt(Inst(I.cls("ParametricCircuitContext")))
        fz = I.accessor.get(("CircuitContext", "frozen"))
        if fz:
            # an inactive context is never frozen: freeze blocks end before the context is left
            I.assume(T("truth", T("fld", ctx, fz)), False)
        if not parametric:
            I.assume(T("isinst", ctx, I.cls("ParametricCircuitContext")), False)


@prim
def choose(I, *vals):
    return vals[I.choose(len(vals))]


@prim
def attempt(I, f, *args):
    """Calls f; ("ok", value) or ("raise", exception)."""
    try:
        v = I.call(f, list(args), {})
    except PyRaise as e:
        x = e.exc
        return T("tuple", seq([one(const("raise")), one(x), one(const(str(e.where)))]))
    return T("tuple", seq([one(const("ok")), one(v), one(NONE)]))


@prim
def attempt_one(I, *fs):
    """attempt of any one of the functions."""
    return attempt(I, fs[I.choose(len(fs))])


@prim
def attempt_all(I, f, *args):
    """Like attempt, and every implicit exception of the code is considered."""
    I.handlers.append((None,))
    try:
        return attempt(I, f, *args)
    finally:
        I.handlers.pop()


@prim
def attempt_for(I, exc, f, *args):
    I.handlers.append((exc.name if isinstance(exc, BuiltinV) else exc,))
    try:
        return attempt(I, f, *args)
    finally:
        I.handlers.pop()


def _r(r):
    return [x.args[0] for x in r.args[0].args]


@prim
def raised(I, r, *classes):
    k, v, w = _r(r)
    if cval(k) != "raise":
        return FALSE
    if not classes:
        return TRUE
    return const(any(I.exc_matches(v, c) for c in classes))


def describe(I, r):
    k, v, w = _r(r)
    return f"raises {v.clsname()} at {cval(w)}" if cval(k) == "raise" else f"returns {short(v)}"


@prim
def expect_raises(I, r, *a):
    """expect_raises(r, Exc, ..., message)"""
    I.obligations += 1
    *classes, msg = a
    if raised(I, r, *classes) is not TRUE:
        raise CheckFail(f"{cval(msg)}: {describe(I, r)}")
    return NONE


@prim
def expect_ok(I, r, msg=const("")):
    """The call succeeded; its value."""
    I.obligations += 1
    k, v, w = _r(r)
    if cval(k) != "ok":
        if v.cls is None:
            raise Undecided("unknown exception")
        raise CheckFail(f"{cval(msg)}: {describe(I, r)}")
    return v


@prim
def result(I, r):
    k, v, w = _r(r)
    return v


@prim
def expect(I, cond, msg=const("")):
    I.obligations += 1
    if not I.truth(cond):
        raise CheckFail(cval(msg))
    return NONE


@prim
def assume(I, cond):
    if not I.truth(cond):
        raise Infeasible
    return NONE


def _same(I, a, b, msg, strict=False):
    I.obligations += 1
    try:
        Compare(I, strict).same(a, b)
    except CheckFail as e:
        raise CheckFail(f"{cval(msg)}: {e.msg}")
    return NONE


@prim
def same(I, a, b, msg=const("")):
    return _same(I, a, b, msg)


@prim
def same_strict(I, a, b, msg=const("")):
    return _same(I, a, b, msg, True)


@prim
def same_object(I, a, b, msg=const("")):
    I.obligations += 1
    if not I.branch(I.is_(a, b)):
        raise CheckFail(f"{cval(msg)}: {short(a)} is not {short(b)}")
    return NONE


@prim
def is_new(I, a, msg=const("")):
    I.obligations += 1
    if not (isinstance(a, Ref) or (isinstance(a, Term) and a.op == "obj")):
        raise CheckFail(f"{cval(msg)}: {short(a)} is shared")
    return NONE


@prim
def fail(I, msg):
    raise CheckFail(cval(msg))


@prim
def condition_of(I, op):
    f = I.accessor.get(("Operation", "condition"))
    if f is None:
        raise Unsupported("no condition field")
    v = I.field_get(op, I.class_of(op), f, I.find_attr(op, I.class_of(op), f))
    return NONE if v is None else v


@prim
def parameters_of(I, c):
    f = I.accessor.get(("ParametricCircuit", "parameters"))
    if f is None:
        raise Unsupported("no parameter register")
    return I.getattr(c, f)


@prim
def kernels(I, mode):
    """How kernel calls are modelled in this scenario; stored states count as normalized."""
    I.kernel_mode = cval(mode)
    I.ext_hooks["numpy.isclose"] = isclose_hook
    return NONE


@prim
def first_rng(I, seed):
    """A new generator made from this seed."""
    from .simkernels import rng_hook
    return rng_hook(I, None, [seed], {})


@prim
def same_array(I, a, b, msg=const("")):
    """Same contents; through the normal form where there is one."""
    I.obligations += 1
    x, y = I.snap(a), I.snap(b)
    if x == y:
        return NONE
    u, v = ring.normal(I, x), ring.normal(I, y)
    if u is not None and v is not None:
        return same_matrix(I, a, b, msg)
    return _same(I, a, b, msg)


@prim
def traced(I, f, *args):
    """Calls to kernels and external functions that f makes (f's own effects are kept)."""
    old = I.st.trace
    I.st.trace = ()
    try:
        I.call(f, list(args), {})
        return T("tuple", seq(I.st.trace))
    finally:
        I.st.trace = old


@prim
def watch_warnings(I):
    """From here on warnings are recorded in the trace."""
    I.record_warnings = True
    return NONE


@prim
def warned(I):
    """Whether a warning was issued since."""
    return TRUE if any(contains_any(s, lambda x: isinstance(x, Term) and x.op == "warn") for s in I.st.trace) else FALSE


@prim
def trace(I):
    """Calls made so far to recorded external functions."""
    return T("tuple", seq(I.st.trace))


@prim
def freeze_value(I, v):
    """A snapshot of a container's present content."""
    if isinstance(v, (Ref, Term)):
        k = I.typ(v)[0]
        if k == "opt" and I.branch(T("isnone", v)):
            return NONE
        k = I.typ(v)[0]
        if k in ("list", "seq"):
            return I.alloc("list", content=I.content(v))
        if k == "dict":
            return I.alloc("dict", content=I.content(v))
        if k == "inst" and I.is_register(v):
            return I.alloc("list", content=I.content(v))
    return I.snap(v)


@prim
def show_(I, *vs):
    print("SHOW", *[show(v)[:1500] if isinstance(v, (Term, Ref)) else v for v in vs], [ (I.st.heap[v].kind, I.st.cont.get(v)) for v in vs if isinstance(v, Ref)])
    return NONE


@prim
def facts(I):
    print("FACTS", {show(k) if isinstance(k, Term) else k: v for k, v in I.st.facts.items()}, {show(k): v for k, v in I.st.num.items()})
    return NONE


@prim
def ext(I, path, *args):
    """Value of an external pure function (normal form)."""
    return I.ext_value(cval(path), args)


# ------------------------------------------------------------------ running
class Outcome:
    def __init__(self, name):
        self.name, self.paths, self.ok = name, 0, 0
        self.violations, self.undecided = [], []
        self.functions = set()
        self.loops = self.obligations = 0
        self.seconds = 0.0


def weird(lits):
    for l, v in lits:
        while isinstance(l, Term) and l.op == "not":
            l = l.args[0]
        if l.op == "arreq" and any(x.op == "sym" and not contains_any(y, lambda t: t is x or t == x) for x, y in (l.args, l.args[::-1])
                                   if isinstance(x, Term)):
            continue        # an arbitrary array differs from (or equals) one that does not depend on it
        if l.op == "strlt" and ordered(lits):
            continue
        if l.op not in GOODLITS:
            return l
        if contains_any(l, lambda x: isinstance(x, Term) and x.op in WEIRD):
            return l
    return None


def ordered(lits):
    """Some order of strings satisfies all the order literals of the path."""
    less = set()
    for l, v in lits:
        if isinstance(l, Term) and l.op == "strlt":
            if any(x.op not in ("sym", "fld", "uid", "const") or x == const("") for x in l.args):
                return False
            less.add((l.args[0], l.args[1]) if v else (l.args[1], l.args[0]))
    names = {x for p in less for x in p}
    fixed = [x for x in names if is_const(x)]
    less |= {(x, y) for x in fixed for y in fixed if cval(x) < cval(y)}
    while less:
        top = [x for x in names if not any(q is x or q == x for _, q in less)]
        if not top:
            return False
        names -= set(top)
        less = {(p, q) for p, q in less if p in names and q in names}
    return True


class TimeLimit(BaseException):
    pass


def _alarm(*a):
    raise TimeLimit()


def run_scenario(I, fn, limit=60):
    out = Outcome(fn.name)
    t0 = time.time()
    I.memo.clear()
    I.kernel_mode = None
    I.record_warnings = False
    I.ext_hooks.pop("numpy.isclose", None)
    I.obligations = 0
    I.visited = set()
    I.stats["loops"] = 0
    base = I.st.clone()
    doc = ast.get_docstring(fn.node) or fn.name
    out.title = doc.split("\n")[0]
    saved = (dict(I.cfg), set(I.distinct_terms))
    natives = I.native_classes, [(c, c.native) for c in I.classes]
    if fn.name.startswith("scen_real_"):
        # the Cython registers themselves are analysed
        I.native_classes = set()
        for c in I.classes:
            c.native = None
    if fn.name.startswith("scen_str_"):
        I.str_inline = ("Variable",)
    if fn.name.startswith("scen_eq_"):
        # comparisons of qubits, bits, variables and operations are analysed rather than abstracted
        I.inline_eq = {"Qubit", "Bit", "Variable", "Operation"}
    overrides = I.overrides
    if fn.name.startswith("scen_counter_"):
        # the counter itself is analysed
        I.overrides = {k: v for k, v in overrides.items() if v is not next_id}
    notes = []

    def thunk():
        try:
            I.call(fn, [], {})
            return ("ok", None, None)
        except CheckFail as e:
            w = I.where()
            if getattr(e, "nested", False):
                return ("undecided", f"inside a loop: {e.msg}", w)
            try:
                refine(I)
            except (Unsupported, Undecided, Hoist, PyRaise) as x:
                return ("undecided", f"refinement: {x} ({e.msg})", w)
            return ("fail", e.msg, w)
        except PyRaise as e:
            try:
                refine(I)
            except (Unsupported, Undecided, Hoist, PyRaise) as x:
                return ("undecided", f"refinement: {x}", "")
            raise e
        except Undecided as e:
            w = I.where()
            try:
                refine(I)
            except (Unsupported, Undecided, Hoist, PyRaise):
                pass
            return ("undecided", str(e), w)
        except Hoist:
            raise
        except Unsupported as e:
            return ("undecided", str(e), I.where())
        except (KeyError, TypeError, AttributeError, ValueError, IndexError, RecursionError, AssertionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            if I.cfg.get("debug"):
                traceback.print_exc()
            return ("undecided", f"engine: {type(e).__name__}: {e} ({tb.name}:{tb.lineno})", I.where())

    I.deadline = t0 + limit
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit + 10)
    done = []
    try:
        paths = I.explore(base, thunk, tag=("scenario", fn.name), sink=done)
    except TimeLimit:
        out.undecided.append(("time limit within a path", "", ()))
        paths = done
    except Unsupported as e:
        out.undecided.append((str(e), "", ()))
        paths = done
    except Hoist as e:
        out.undecided.append((f"hoist {e.lit}", "", ()))
        paths = []
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    I.deadline = None
    for p in paths:
        out.paths += 1
        if p.kind == "exit":
            e = p.value
            if isinstance(e, PyRaise):
                kind, msg, where = "fail", f"unexpected {e.exc.clsname()} {tuple(show(a) if isinstance(a, Term) else a for a in e.exc.args)}", e.where
            else:
                kind, msg, where = "undecided", f"control {type(e).__name__}", ""
        else:
            kind, msg, where = p.value
        if kind == "ok":
            if p.st.imprecise:
                out.undecided.append((p.st.imprecise[0], where, p.lits))
            else:
                out.ok += 1
            continue
        if kind == "fail":
            w = weird(p.lits)
            if p.st.imprecise:
                kind, msg = "undecided", f"{p.st.imprecise[0]} ({msg})"
            elif w is not None and not I.cfg.get("allow_weird"):
                kind, msg = "undecided", f"condition {short(w)} ({msg})"
        if kind == "fail":
            out.violations.append((msg, where, p.lits))
        else:
            out.undecided.append((msg, where, p.lits))
    out.functions = set(I.visited)
    out.loops = I.stats["loops"]
    out.obligations = I.obligations
    out.seconds = time.time() - t0
    I.distinct_terms = saved[1]
    I.inline_eq = set()
    I.overrides = overrides
    I.native_classes = natives[0]
    for c, v in natives[1]:
        c.native = v
    I.memo.clear()
    return out


def refine(I, rounds=3):
    """Consistency of quantified literals on a failing path.

    Every witness of a true existential is tried in every false one over the same range (and in the
    minimality claim of every first index).  A contradiction makes the path infeasible.
    """
    I.loops, I.handlers = [], []
    seen = set()

    def tree_true(t):
        while t.op == "ite":
            t = t.args[1] if I.branch(t.args[0]) else t.args[2]
        return bool(cval(t))

    def within(w, n):
        return (I.branch(I.rel(const(0), "<=", w)) and I.branch(I.rel(w, "<", n)))

    budget = [120]
    for _ in range(rounds):
        facts = [(l, v) for l, v in I.st.facts.items() if isinstance(l, Term) and isinstance(v, bool)]
        pos = [l for l, v in facts if v and l.op in ("exists", "in")]
        neg = [l for l, v in facts if not v and l.op in ("exists", "in")]
        if not neg and len(pos) < 2:
            return
        wit = []
        for l in pos:
            if l.op == "exists":
                h, n, tree = l.args
                j = first_of(h, n, tree)
                wit.append((j, n))
                if ("w", l) not in seen:
                    seen.add(("w", l))
                    if not tree_true(subst(tree, {bv(h): j})):
                        raise Infeasible
            else:
                x, S = l.args
                if isinstance(S, Term):
                    j = T("index", S, x)
                    wit.append((j, seqlen(S)))
                    if ("w", l) not in seen and typ_ok(I, S):
                        seen.add(("w", l))
                        e = I.eq(at(S, j), x)
                        if not I.branch(e):
                            raise Infeasible
        for t, ty in list(I.st.types.items()):
            if isinstance(t, Term) and t.op == "sym" and ty == INT:
                wit.append((t, None))
        changed = False
        for l in neg:
            if l.op == "exists":
                h, n, tree = l.args
                body = lambda j: tree_true(subst(tree, {bv(h): j}))
            else:
                x, S = l.args
                if not isinstance(S, Term) or not typ_ok(I, S):
                    continue
                n = seqlen(S)
                body = lambda j: I.branch(I.eq(at(S, j), x))
            for w, m in wit + [(x, None) for x in instances(l, facts)]:
                if (l, w) in seen:
                    continue
                if m is None:
                    if I.decide(I.rel(w, "<", n)) is not True or I.decide(I.rel(const(0), "<=", w)) is not True:
                        continue
                elif m != n:
                    continue
                seen.add((l, w))
                budget[0] -= 1
                if budget[0] < 0:
                    raise Undecided("refinement budget")
                changed = True
                if body(w):
                    raise Infeasible
        for l in pos:
            if l.op == "exists":
                h, n, tree = l.args
                j = first_of(h, n, tree)
                for w, m in wit:
                    if m != n or w == j or ("m", l, w) in seen:
                        continue
                    seen.add(("m", l, w))
                    budget[0] -= 1
                    if budget[0] < 0:
                        raise Undecided("refinement budget")
                    changed = True
                    if I.branch(I.rel(w, "<", j)) and tree_true(subst(tree, {bv(h): w})):
                        raise Infeasible
        if not changed:
            return


def instances(l, facts):
    """Positions w at which a sequence S is read elsewhere on the path, for S[i] in a quantified literal."""
    if l.op != "exists":
        return []
    pats = set()

    def pat(t):
        if isinstance(t, Term):
            if t.op == "at" and t.args[1] == bv(l.args[0]):
                pats.add(t.args[0])
            for x in t.args:
                pat(x)
        elif isinstance(t, tuple):
            for x in t:
                pat(x)
    pat(l.args[2])
    out, done = [], set()

    def find(t):
        if isinstance(t, tuple):
            for x in t:
                find(x)
        if not isinstance(t, Term) or t in done:
            return
        done.add(t)
        if t.op == "at" and t.args[0] in pats and not contains_any(t.args[1], lambda x: isinstance(x, Term) and x.op == "bv") and t.args[1] not in out:
            out.append(t.args[1])
        for x in t.args:
            find(x)
    for f, v in facts:
        if f is not l:
            find(f)
    return out


def typ_ok(I, S):
    return I.typ(S)[0] in ("list", "seq", "tuple")


def load_spec(I, pid):
    name = f"specs.{pid}"
    m = I.load_module(name)
    fr = I.st.frames[m.fid]
    return [v for k, v in fr.items() if isinstance(v, FuncV) and k.startswith("scen_")]


# ------------------------------------------------------------------ QIR (see specs/models/pyqir)
@prim
def reference(I, kind, i):
    """Reference to a qubit or result: the same one for the same index."""
    v = I.decide(I.rel(i, "<", const(0)))
    if v is True:
        I.raise_("OverflowError")
    t = T("llref", kind, i)
    return t


@prim
def reference_kind(I, v):
    if v.op != "llref":
        raise Unsupported("reference")
    return v.args[0]


@prim
def reference_id(I, v):
    if v.op != "llref":
        raise Unsupported("reference")
    return v.args[1]


@prim
def llvm(I, kind, content):
    """What LLVM makes of a module's content."""
    t = T("llvm", kind, I.snap(content))
    I.st.types[t] = Opt(STR) if cval(kind) == "error" else ("bytes",) if cval(kind) == "bitcode" else STR
    return t


@prim
def regex(I, kind, pattern, string, *more):
    """Regular expressions on constant text (see specs/models/re.py)."""
    import re
    if not all(is_str_const(x) for x in (pattern, string, *more)):
        raise Unsupported("regular expression on unknown text")
    k, p, s = cval(kind), cval(pattern), cval(string)
    try:
        if k == "sub":
            return const(re.sub(p, cval(more[0]), s))
        if k == "findall":
            return T("tuple", seq([one(const(x) if isinstance(x, str) else T("tuple", seq([one(const(y)) for y in x]))) for x in re.findall(p, s)]))
        m = getattr(re, k)(p, s)
    except re.error:
        I.raise_("ValueError", "regular expression")
    return NONE if m is None else T("tuple", seq([one(const(x)) for x in (m.group(0),) + m.groups()]))


@prim
def squeezed(I, v):
    """Text up to white space that carries no meaning."""
    from .text import squeeze
    if not isinstance(v, Term):
        raise Unsupported("text")
    return squeeze(v)


@prim
def declaration(I, v):
    """The parts of a constant OpenQASM gate declaration, or None."""
    from .text import declaration as parse

    def term(x):
        return const(x) if isinstance(x, str) else T("tuple", seq([one(term(y)) for y in x]))
    if not is_str_const(v):
        raise Unsupported("declaration")
    d = parse(cval(v))
    return NONE if d is None else term(d)


@prim
def content_of(I, v, kind):
    """The content of the module that a text or bitcode came from."""
    I.obligations += 1
    if not (isinstance(v, Term) and v.op == "llvm" and v.args[0] == kind):
        raise CheckFail(f"{short(v)} is not the {cval(kind)} of a compiled module")
    return v.args[1]


# ------------------------------------------------------------------ matrices
from . import ring  # noqa: E402


def normal_form(I, v):
    try:
        return ring.Eval(I)(v)
    except ring.Mismatch as e:
        raise CheckFail(f"computing the matrix raises: {e}")
    except ring.NoForm as e:
        raise Undecided(f"matrix outside the normal form: {e}")
    except (ValueError, TypeError, IndexError, AttributeError, KeyError, ZeroDivisionError, OverflowError, RecursionError) as e:
        raise Undecided(f"matrix outside the normal form: {type(e).__name__} {e}")


def mat_text(m, i):
    return f"entry {i} is {m.at(i)!r}"


@prim
def same_matrix(I, a, b, msg=const("")):
    """Both evaluate to the same array, as functions of the parameters."""
    I.obligations += 1
    if a is NONE or a == NONE or isinstance(a, (Named,)):
        raise CheckFail(f"{cval(msg)}: {short(a)} instead of a matrix")
    x, y = normal_form(I, a), normal_form(I, b)
    if type(x) is not type(y):
        raise CheckFail(f"{cval(msg)}: scalar instead of array or the reverse")
    if isinstance(x, ring.El):
        if x != y:
            raise CheckFail(f"{cval(msg)}: {x!r} instead of {y!r}")
        return NONE
    if x.shape != y.shape:
        raise CheckFail(f"{cval(msg)}: shape {x.shape} instead of {y.shape}")
    for i in x.index():
        if x.at(i) != y.at(i):
            raise CheckFail(f"{cval(msg)}: entry {i} is {x.at(i)!r} instead of {y.at(i)!r}")
    return NONE


@prim
def is_unitary(I, a, msg=const("")):
    I.obligations += 1
    if a is NONE or a == NONE:
        raise CheckFail(f"{cval(msg)}: no matrix")
    x = normal_form(I, a)
    if not isinstance(x, ring.Nd) or len(x.shape) != 2 or x.shape[0] != x.shape[1]:
        raise CheckFail(f"{cval(msg)}: not a square matrix")
    p = ring.matmul(x, x.T.map(lambda e: e.conj()))
    if p != ring.eye(x.shape[0]):
        raise CheckFail(f"{cval(msg)}: times its adjoint is not the identity")
    return NONE


@prim
def same_linear_map(I, a, b, msg=const("")):
    return same_matrix(I, a, b, msg)


def _ket_row(k):
    return tuple((1.0, 0.0) if b == k else (0.0, 0.0) for b in (0, 1))


@prim
def probability(I, k, n, q, le, state):
    """The probability of outcome k for qubit q: the squared norm of the projection."""
    from . import simkernels
    le = cval(le)
    return simkernels.weight(I, (_ket_row(cval(k)),), n, q, le, I.snap(state))


@prim
def collapsed(I, k, n, q, le, state, p):
    """The one update of the state that collapses qubit q to outcome k, which had probability p."""
    rows = tuple(_ket_row(k_) if k_ == cval(k) else ((0.0, 0.0), (0.0, 0.0)) for k_ in (0, 1))
    call = T("project", rows, n, q, le, T("power", p, const(-0.5)))
    return T("tuple", seq([one(T("kcall", call, I.snap(state)))]))


@prim
def updates(I, calls):
    """Recorded kernel calls with positions counted from the low end, whichever end the kernel counts from."""
    def low(t):
        if not isinstance(t, Term):
            return t
        a = tuple(low(x) for x in t.args)
        if t.op == "kernel" and a[5] == FALSE:
            n, flip = a[1], lambda ts: T("tuple", seq([one(sub(sub(a[1], x.args[0]), const(1))) for x in ts.args[0].args]))
            ts, cs = flip(a[3]), flip(a[4])
            order = lambda ts: T("tuple", seq(sorted(ts.args[0].args, key=show_full)))
            return T("kernel", a[0], n, a[2], order(ts) if a[0] == "swap" else ts, order(cs), TRUE)
        if t.op == "kernel":
            order = lambda ts: T("tuple", seq(sorted(ts.args[0].args, key=show_full)))
            return T("kernel", a[0], a[1], a[2], order(a[3]) if a[0] == "swap" else a[3], order(a[4]), a[5])
        if t.op == "project" and a[3] == FALSE:
            return T("project", a[0], a[1], sub(sub(a[1], a[2]), const(1)), TRUE, a[4])
        if t.op == "weight" and a[3] == FALSE:
            return T("weight", a[0], a[1], sub(sub(a[1], a[2]), const(1)), TRUE, a[4])
        return T(t.op, *a)
    return low(I.snap(calls) if isinstance(calls, Ref) else calls)
