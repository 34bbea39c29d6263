"""Model of the compiled kernels, the generator and array shapes in simulation scenarios.

A kernel call is a value: which linear map is applied to which content.  In content mode the array's
content becomes T("after", call, old content), which engine/ring.py can evaluate when the sizes are
known; in trace mode (used under loops over arbitrary circuits) the call is only recorded.
"""
from __future__ import annotations
from .terms import *
from .values import *
from .interp import *
from .objects import *
from .natives import *
from .compare import CheckFail, short
from . import kernels, ring, ckernel


class Kernels:
    """Mixin of the engine."""
    kernel_mode = None

    def amp_id(self, call, old):
        """A short name for the amplitudes after this measurement of this state."""
        d = self.__dict__.setdefault("amps", {})
        return d.setdefault((call, old), len(d))

    # ------------------------------------------------------------ shapes
    def shape_of(self, t):
        """The shape of an array value as a list of terms, where the value shows it."""
        if isinstance(t, Ref):
            t = self.snap(t)
        if not isinstance(t, Term):
            return None
        if t.op in ("after", "aset"):
            return self.shape_of(t.args[1] if t.op == "after" else t.args[0])
        if t.op == "ext" and t.args[1].args and t.args[1].args[0].op == "one":
            p, a = t.args[0], [x.args[0] for x in t.args[1].args if x.op == "one"]
            if p in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full"):
                return self.shape_arg(a[0])
            if p in (".reshape", "numpy.reshape") and len(a) == 2:
                sh = self.shape_arg(a[1])
                return None if sh is None or any(x == const(-1) for x in sh) else sh
            if p in ("numpy.conj", "numpy.ascontiguousarray", ".conj", "numpy.copy", ".copy"):
                return self.shape_of(a[0])
            if p in ("numpy.array", "numpy.asarray") and isinstance(a[0], Term) and a[0].op in ("list", "tuple") \
                    and all(x.op == "one" and self.is_scalar(x.args[0]) for x in a[0].args[0].args):
                return [const(len(a[0].args[0].args))]
            if p == "numpy.transpose" and len(a) == 1:
                sh = self.shape_of(a[0])
                return None if sh is None else sh[::-1]
        if t.op in ("ext", "conj", "mul") and not contains_any(t, lambda x: isinstance(x, Term) and x.op in ("after", "vcall")):
            v = ring.normal(self, t)
            if isinstance(v, ring.Nd):
                return [const(n) for n in v.shape]
        return None

    def is_scalar(self, t):
        if not isinstance(t, Term):
            return False
        if t.op == "aget":
            sh = self.shape_of(t.args[0])
            return sh is not None and len(sh) == 1 and self.typ(t.args[1])[0] == "int"
        if t.op in ("add", "mul", "sub", "neg"):
            return all(self.is_scalar(x) for x in t.args if isinstance(x, Term))
        return self.typ(t)[0] in ("int", "num", "float", "complex", "bool")

    def shape_arg(self, a):
        if isinstance(a, Ref):
            a = self.snap(a)
        if isinstance(a, Term) and a.op in ("tuple", "list"):
            return [x.args[0] for x in a.args[0].args] if all(x.op == "one" for x in a.args[0].args) else None
        return [a] if isinstance(a, Term) else None

    # ------------------------------------------------------------ normalisation
    def simplify_ext(self, t):
        p, A = t.args[0], t.args[1].args
        if p in ("numpy.log2", "math.log2") and len(A) == 1 and A[0].op == "one":
            n = self.log2(A[0].args[0])
            if n is not None:
                return n
        return t

    def log2(self, v):
        if is_int_const(v) and cval(v) > 0 and cval(v) & (cval(v) - 1) == 0:
            return const(cval(v).bit_length() - 1)
        if isinstance(v, Term) and v.op == "pow2":
            return v.args[0]
        if isinstance(v, Term) and v.op == "mul":
            a, b = self.log2(v.args[0]), self.log2(v.args[1])
            return add(a, b) if a is not None and b is not None else None
        if isinstance(v, Term) and v.op == "lin" and len(v.args[0]) == 1 and v.args[1] == 0:
            (x, c), = v.args[0]
            n = self.log2(x)
            if n is not None and isinstance(c, int) and c > 0 and c & (c - 1) == 0:
                return add(n, const(c.bit_length() - 1))
        return None

    def membuf(self, m):
        """The memory a kernel reads through the data pointer of an array."""
        t = self.snap(m) if isinstance(m, (Ref, Term)) else T("named", m)
        while isinstance(t, Term) and t.op == "ext" and t.args[0] in ("numpy.transpose", "numpy.ascontiguousarray", ".copy", "numpy.copy") and len(t.args[1].args) == 1:
            x = t.args[1].args[0].args[0]
            if t.args[0] != "numpy.transpose" and isinstance(x, Term) and x.op == "ext" and x.args[0] == "numpy.transpose":
                break               # a contiguous copy of a transposed view is the real transpose
            t = x
        v = ring.normal(self, t)
        if isinstance(v, ring.Nd):
            return matrix_term(v)
        return t


def matrix_term(v):
    """The normal form as a term (equal matrices give equal terms)."""
    def cx(c):
        c = complex(c)
        return (round(c.real, 11) + 0.0, round(c.imag, 11) + 0.0)
    return T("matrix", v.shape, tuple(tuple((e, p, cx(e_.d[(e, p)])) for e, p in sorted(e_.d, key=repr_key)) for e_ in v.v))


def repr_key(k):
    return tuple(tuple((show_full(x), q) for x, q in y) for y in k)


def matrix_of(t):
    shape, entries = t.args
    return ring.Nd(shape, [ring.El({(e, p): complex(*c) for e, p, c in en}) for en in entries])


def flag(I, v):
    return const(I.truth(v) if isinstance(v, (Ref, Term)) else bool(v))


def kernel_hook(I, path, args, kwargs):
    name = path.split(".")[-1]
    sig = kernels.signatures().get(name)
    if sig is None:
        raise Unsupported(f"unknown kernel {name}")
    if I.kernel_mode is None:
        raise Unsupported("kernel call outside a simulation scenario")
    b = dict(zip([n for n, _ in sig], args))
    if len(args) > len(sig) or any(k in b or k not in dict(sig) for k in kwargs):
        I.raise_("TypeError", "arguments of a kernel")
    b.update(kwargs)
    for n, d in sig:
        if n not in b:
            if d is None:
                I.raise_("TypeError", "missing argument of a kernel")
            b[n] = const(d)
    for k, v in b.items():
        if k.startswith(("target", "control", "num_qubits")) and isinstance(v, (Ref, Term)) and I.typ(v)[0] not in ("int", "bool", "any"):
            I.raise_("TypeError", "an integer is required")
    for n, v in b.items():
        if n.startswith(("target", "control", "num_qubits")) and isinstance(v, (Ref, Term)) and I.typ(v)[0] in ("int", "bool"):
            I.guard("OverflowError", I.rel(const(0), "<=", v), "an index is negative")
    state = b["state_vector"]
    if not isinstance(state, (Ref, Term)) or I.typ(state)[0] != "array":
        I.raise_("TypeError", "state is not an array")
    ints = lambda p: [b[n] for n, _ in sig if n.startswith(p)]
    T_, C_ = ints("target"), sorted(ints("control"), key=show_full)
    le = flag(I, b["little_endian"])
    tup = lambda xs: T("tuple", seq([one(x) for x in xs]))
    old = I.snap(state)
    if "rng" in b:
        ap = flag(I, b["apply_operator"])
        r = b["rng"]
        r = I.snap(r) if isinstance(r, (Ref, Term)) else T("named", r)
        call = T("measure", name, b["num_qubits"], draw(I, r), tup(T_), le, ap)
    else:
        swap = "swap" in name
        mat = NONE if swap else I.membuf(b["gate_matrix"])
        call = T("kernel", "swap" if swap else "gate", b["num_qubits"], mat, tup(sorted(T_, key=show_full) if swap else T_), tup(C_), le)
    I.st.trace = I.st.trace + (one(T("kcall", call, old)),)
    if I.kernel_mode == "content" and not (call.op == "measure" and cval(call.args[5]) is False):
        new = T("after", call, old)
        I.st.types.setdefault(new, ARRAY)
        if isinstance(state, Ref):
            I.set_array(state, new)
        else:
            raise Unsupported("kernel on an array the caller does not own")
    if call.op == "measure":
        v = ring.normal(I, old) if I.kernel_mode == "content" else None
        out = T("outcome", call, T("amp", I.amp_id(call, matrix_term(v))) if isinstance(v, ring.Nd) else old)
        I.st.types.setdefault(out, INT)
        if not I.loops:
            I.assume(I.rel(const(0), "<=", out), True)
            I.assume(I.rel(out, "<=", const(1)), True)
        return out
    return NONE


def c_hook(I, path, args, kwargs):
    """A call of a C kernel, as what the kernel was found to do."""
    name = path.split(".")[-1]
    try:
        m = kernels.meaning(name)
        params = kernels.c_functions()[name][3]
    except ckernel.Unclear as e:
        raise Unsupported(f"kernel {name}: {e}")
    except ckernel.Wrong as e:
        raise CheckFail(f"{name} (line {e.line} of ops.h, written by operation_generation.py): {e.msg}")
    if kwargs or len(args) != len(params):
        raise CheckFail(f"{len(args)} arguments for {name}, which takes {len(params)}")
    kind, little, n, st = m[:4]
    state = args[st]
    if not isinstance(state, (Ref, Term)) or I.typ(state)[0] != "array":
        raise CheckFail(f"{name} is given {short(state)} as the state")
    old = I.snap(state)
    tup = lambda xs: T("tuple", seq([one(x) for x in xs]))
    if kind in ("gate", "swap"):
        mat = NONE
        if kind == "gate":
            mat = args[m[4]]
            if not isinstance(mat, (Ref, Term)) or I.typ(mat)[0] != "array":
                raise CheckFail(f"{name} is given {short(mat)} as the gate matrix")
            mat = I.membuf(mat)
        ts = [args[i] for i in m[5]]
        call = T("kernel", kind, args[n], mat, tup(sorted(ts, key=show_full) if kind == "swap" else ts), tup(sorted((args[i] for i in m[6]), key=show_full)), const(little))
        I.st.trace = I.st.trace + (one(T("kcall", call, old)),)
        return NONE
    rows = lambda rs: tuple(tuple((c.real + 0.0, c.imag + 0.0) for c in r) for r in rs)
    if kind == "weight":
        return weight(I, rows(m[5]), args[n], args[m[4]], little, old)
    call = T("project", rows(m[6]), args[n], args[m[4]], const(little), power_of(I, args[m[5]]))
    I.st.trace = I.st.trace + (one(T("kcall", call, old)),)
    return NONE


def weight(I, rows, n, q, little, old):
    """The squared norm of a projection of the state."""
    if not little:
        n, q, little = n, sub(sub(n, q), const(1)), True
    v = T("weight", tuple(sorted(rows, key=repr)), n, q, const(little), old)
    I.st.types.setdefault(v, NUM)
    I.assume(I.rel(const(0), "<=", v), True)
    return v


def power_of(I, v):
    """base ** exponent, for real powers of one number."""
    def go(t):
        if isinstance(t, Term) and t.op == "ext" and t.args[1].args and t.args[0] in ("numpy.sqrt", "math.sqrt") and len(t.args[1].args) == 1:
            b, e = go(t.args[1].args[0].args[0])
            return b, e / 2
        if isinstance(t, Term) and t.op == "bin" and t.args[0] in ("/", "**"):
            t = T("div" if t.args[0] == "/" else "pow", t.args[1], t.args[2])
        if isinstance(t, Term) and t.op == "div":
            (b, e), (c, f) = go(t.args[0]), go(t.args[1])
            if b is None or c is None or b == c:
                return (b if b is not None else c), e - f
        if isinstance(t, Term) and t.op == "pow" and isinstance(t.args[1], Term) and t.args[1].op == "const" and isinstance(cval(t.args[1]), (int, float)):
            b, e = go(t.args[0])
            return b, e * cval(t.args[1])
        if isinstance(t, Term) and t.op == "const" and cval(t) == 1:
            return None, 0
        if isinstance(t, Term) and (t.op == "weight" or t.op == "lin" and t.args[1] == 0 and all(x.op == "weight" for x, _ in t.args[0])):
            return t, 1
        if isinstance(t, (int, float)) and t == 1:
            return None, 0
        raise Unsupported("scale factor " + show_full(t)[:100])
    b, e = go(v)
    return T("power", b if b is not None else const(1), const(float(e)))


def draw(I, r):
    """The next number of a generator; generators made from the same seed draw the same numbers."""
    g = T("rng", r.args[0], 0) if isinstance(r, Term) and r.op == "rng" and r.args[1] != "loop" else r
    if I.loops:
        return T("draw", g, "loop")
    k = ("draws", r)
    n = I.st.facts.get(k, 0)
    I.st.facts[k] = n + 1
    return T("draw", g, n)


def rng_hook(I, path, args, kwargs):
    seed = args[0] if args else kwargs.get("seed", NONE)
    seed = I.snap(seed) if isinstance(seed, (Ref, Term)) else T("named", seed)
    if I.loops:
        k = "loop"
    else:
        k = I.st.facts.get("rngs", 0)
        I.st.facts["rngs"] = k + 1
    t = T("rng", seed, k)
    I.st.types.setdefault(t, ("ext",))
    return t


def isclose_hook(I, path, args, kwargs):
    if I.kernel_mode is not None:
        return TRUE
    return I.ext_value(path, I.unstar(args), kwargs)


HOOKS = {"dwave.gate.simulator.ops.*": kernel_hook, "dwave.gate.simulator.cops.*": c_hook, "numpy.random.default_rng": rng_hook}


# ------------------------------------------------------------------ meaning of a kernel call on a known vector
def apply_kernel(call, vec):
    """Nd of shape (2**n,) after the kernel, by the definition of a controlled gate."""
    kind, n, mat, targets, controls, le = call.args
    items = lambda t: [cval(x.args[0]) for x in t.args[0].args]
    n, targets, controls, le = cval(n), items(targets), items(controls), cval(le)
    if not isinstance(n, int) or len(vec.v) != 2 ** n or any(not isinstance(q, int) or not 0 <= q < n for q in targets + controls) \
            or len(set(targets + controls)) != len(targets + controls):
        raise ring.NoForm("kernel on indices outside the state")
    pos = {q: q if le else n - 1 - q for q in targets + controls}
    k = len(targets)
    out = list(vec.v)
    for i in range(2 ** n):
        if not all(i >> pos[c] & 1 for c in controls):
            continue
        row = sum(((i >> pos[t]) & 1) << (k - 1 - j) for j, t in enumerate(targets))
        base = i & ~sum(1 << pos[t] for t in targets)
        s = ring.num(0)
        for col in range(2 ** k):
            src = base | sum(((col >> (k - 1 - j)) & 1) << pos[t] for j, t in enumerate(targets))
            if kind == "swap":
                if {1: 2, 2: 1}.get(row, row) == col:
                    s = s + vec.v[src]
            else:
                s = s + mat.at((row, col)) * vec.v[src]
        out[i] = s
    return ring.Nd(vec.shape, out)
