"""Normal form of constant-size matrices whose entries are trigonometric in the parameters.

An entry is a sum of monomials  c * prod_k exp(i*q_k*x_k) * prod_k x_k^p_k  (q_k rational, p_k natural,
x_k real parameters).  These monomials are linearly independent functions, so two entries are the same
function exactly when their coefficients agree; coefficients are compared up to 1e-9.
"""
from __future__ import annotations
import cmath
import math
from fractions import Fraction
from .terms import *
from .values import *

EPS = 1e-9


class NoForm(Exception):
    pass


class Mismatch(NoForm):
    """numpy raises here."""


class El:
    """One entry: {(exps, pows): coefficient}."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if abs(v) > EPS}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return El(d)

    def __neg__(self):
        return El({k: -v for k, v in self.d.items()})

    def __sub__(self, o):
        return self + -o

    def __mul__(self, o):
        d = {}
        for (e, p), v in self.d.items():
            for (f, q), w in o.d.items():
                k = (merge(e, f), merge(p, q))
                d[k] = d.get(k, 0) + v * w
        return El(d)

    def const(self):
        """The value of a constant entry."""
        if not self.d:
            return 0j
        if set(self.d) == {((), ())}:
            return complex(self.d[((), ())])
        return None

    def __eq__(self, o):
        return isinstance(o, El) and not (self - o).d

    __hash__ = None

    def conj(self):
        return El({(tuple((x, -q) for x, q in e), p): complex(v).conjugate() for (e, p), v in self.d.items()})

    def linear(self):
        """{x: c}, constant -- if the entry is linear in the parameters."""
        out, c0 = {}, 0j
        for (e, p), v in self.d.items():
            if e:
                raise NoForm("exponential of an exponential")
            if not p:
                c0 += v
            elif len(p) == 1 and p[0][1] == 1:
                out[p[0][0]] = v
            else:
                raise NoForm("not linear")
        return out, c0

    def key(self):
        return tuple(sorted((tuple((show_full(x), q) for x, q in e), tuple((show_full(x), q) for x, q in p),
                             round(v.real, 7) + 0.0, round(v.imag, 7) + 0.0) for (e, p), v in ((k, complex(w)) for k, w in self.d.items())))

    def __repr__(self):
        def mono(e, p, v):
            v = complex(v)
            s = f"{v.real:.6g}" if abs(v.imag) < EPS else f"{v.imag:.6g}i" if abs(v.real) < EPS else f"({v:.6g})"
            return "*".join([s] + [f"exp({q}i*{short_name(x)})" for x, q in e] + [f"{short_name(x)}^{q}" for x, q in p])
        return " + ".join(mono(e, p, v) for (e, p), v in self.d.items()) or "0"


def short_name(t):
    return show_full(t).replace("sym($", "").replace(")", "") if isinstance(t, Term) and t.op == "sym" else \
        f"amplitude[{show_full(t.args[1])}]" if isinstance(t, Term) and t.op == "at" and isinstance(t.args[0], Term) and t.args[0].op == "amp" else show_full(t)[:40]


def merge(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, v in b:
        d[k] = d.get(k, 0) + v
    return tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: show_full(kv[0])))


def num(v):
    return El({((), ()): complex(v)})


def var(x):
    return El({((), ((x, 1),)): 1.0})


def frac(v):
    f = Fraction(v).limit_denominator(10 ** 4)
    if abs(float(f) - float(v)) > 1e-12:
        raise NoForm("irrational frequency")
    return f


def exp(e):
    lin, c = e.linear()
    ex = []
    for x, v in lin.items():
        v = complex(v)
        if abs(v.real) > EPS:
            raise NoForm("real exponential")
        ex.append((x, frac(v.imag)))
    ex = tuple(sorted(((x, q) for x, q in ex if q != 0), key=lambda kv: show_full(kv[0])))
    return El({(ex, ()): cmath.exp(c)})


I_ = num(1j)


def cos(e):
    return (exp(I_ * e) + exp(-(I_ * e))) * num(0.5)


def sin(e):
    return (exp(I_ * e) - exp(-(I_ * e))) * num(-0.5j)


def power(a, n):
    r = num(1)
    for _ in range(abs(n)):
        r = r * a
    return inv(r) if n < 0 else r


def inv(b):
    if len(b.d) == 1:
        ((e, p), v), = b.d.items()
        if not p:
            return El({(tuple((x, -q) for x, q in e), ()): 1 / v})
    raise NoForm("division by a non-constant")


def constf(f):
    def g(e):
        c = e.const()
        if c is None:
            raise NoForm("function of a parameter")
        try:
            return num(f(c))
        except (ValueError, TypeError) as x:
            raise NoForm(str(x))
    return g


SCALAR = {"exp": exp, "cos": cos, "sin": sin, "sqrt": constf(cmath.sqrt), "conj": lambda e: e.conj(), "conjugate": lambda e: e.conj(),
          "tan": constf(cmath.tan), "radians": lambda e: e * num(math.pi / 180), "deg2rad": lambda e: e * num(math.pi / 180),
          "negative": lambda e: -e, "real": lambda e: (e + e.conj()) * num(.5), "imag": lambda e: (e - e.conj()) * num(-.5j)}
CONSTF = {"abs", "fabs", "log", "log2", "floor"}
DTYPES = {"numpy.complex128", "numpy.complex_", "numpy.cdouble", "builtins.complex", "complex", "numpy.complex64x"}


class Nd:
    """A small dense array."""
    __slots__ = ("shape", "v")

    def __init__(self, shape, v):
        self.shape, self.v = tuple(shape), list(v)

    def at(self, idx):
        k = 0
        for i, n in zip(idx, self.shape):
            k = k * n + (i % n)
        return self.v[k]

    def index(self):
        out = [()]
        for n in self.shape:
            out = [i + (j,) for i in out for j in range(n)]
        return out

    def map(self, f):
        return Nd(self.shape, [f(x) for x in self.v])

    @property
    def T(self):
        if len(self.shape) < 2:
            return self
        sh = self.shape[::-1]
        r = Nd(sh, [None] * len(self.v))
        r.v = [self.at(i[::-1]) for i in r.index()]
        return r

    def __eq__(self, o):
        return isinstance(o, Nd) and self.shape == o.shape and all(a == b for a, b in zip(self.v, o.v))

    __hash__ = None

    def key(self):
        return (self.shape, tuple(x.key() for x in self.v))


def broadcast(a, b, f):
    if isinstance(a, El):
        return b.map(lambda y: f(a, y)) if isinstance(b, Nd) else f(a, b)
    if isinstance(b, El):
        return a.map(lambda x: f(x, b))
    n = max(len(a.shape), len(b.shape))
    sa, sb = (1,) * (n - len(a.shape)) + a.shape, (1,) * (n - len(b.shape)) + b.shape
    sh = []
    for x, y in zip(sa, sb):
        if x != y and 1 not in (x, y):
            raise Mismatch(f"shapes {a.shape} and {b.shape}")
        sh.append(max(x, y))
    A, B, R = Nd(sa, a.v), Nd(sb, b.v), Nd(sh, [])
    R.v = [f(A.at(tuple(min(k, s - 1) for k, s in zip(i, sa))), B.at(tuple(min(k, s - 1) for k, s in zip(i, sb)))) for i in R.index()]
    return R


def matmul(a, b):
    if isinstance(a, El) or isinstance(b, El):
        raise NoForm("matmul of scalars")
    va, vb = len(a.shape) == 1, len(b.shape) == 1
    A = Nd((1,) + a.shape, a.v) if va else a
    B = Nd(b.shape + (1,), b.v) if vb else b
    if len(A.shape) != 2 or len(B.shape) != 2 or A.shape[1] != B.shape[0]:
        raise (Mismatch if len(A.shape) == len(B.shape) == 2 else NoForm)(f"shapes {a.shape} and {b.shape}")
    n, m, k = A.shape[0], B.shape[1], A.shape[1]
    v = []
    for i in range(n):
        for j in range(m):
            s = num(0)
            for t in range(k):
                s = s + A.v[i * k + t] * B.v[t * m + j]
            v.append(s)
    sh = ((n,) if not va else ()) + ((m,) if not vb else ())
    return Nd(sh, v) if sh else v[0]


def kron(a, b):
    if isinstance(a, El) or isinstance(b, El):
        return broadcast(a, b, lambda x, y: x * y)
    if len(a.shape) != 2 or len(b.shape) != 2:
        raise NoForm("kron")
    (n, m), (p, q) = a.shape, b.shape
    return Nd((n * p, m * q), [a.v[(i // p) * m + j // q] * b.v[(i % p) * q + j % q] for i in range(n * p) for j in range(m * q)])


def eye(n, m=None, k=0):
    m = n if m is None else m
    v = [num(0)] * (n * m)
    for i in range(n):
        if 0 <= i + k < m:
            v[i * m + i + k] = num(1)
    return Nd((n, m), v)


class Call:
    def __init__(self, *args):
        self.args = args


class Eval:
    """Evaluates terms to El or Nd; leaves are parameters (any term of numeric kind)."""

    def __init__(self, engine, leaf=None):
        self.I, self.leaf, self.memo = engine, leaf, {}

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.ev(t)
        return self.memo[t]

    def arr(self, t):
        v = self(t)
        return v if isinstance(v, Nd) else Nd((), [v])

    def int(self, t):
        if is_int_const(t):
            return cval(t)
        v = self(t)
        c = v.const() if isinstance(v, El) else None
        if c is None or abs(c - round(c.real)) > EPS:
            raise NoForm("not an integer")
        return round(c.real)

    def shape(self, t):
        if isinstance(t, Term) and t.op in ("tuple", "list"):
            return [self.int(x.args[0]) for x in t.args[0].args]
        return [self.int(t)]

    def nested(self, S):
        xs = []
        for x in S.args:
            if x.op != "one":
                raise NoForm("array of unknown length")
            xs.append(self(x.args[0]))
        if all(isinstance(x, El) for x in xs):
            return Nd((len(xs),), xs)
        if all(isinstance(x, Nd) for x in xs) and len({x.shape for x in xs}) == 1:
            return Nd((len(xs),) + xs[0].shape, [y for x in xs for y in x.v])
        raise NoForm("ragged array")

    def ev(self, t):
        if isinstance(t, Ref):
            h = self.I.st.heap[t]
            if h.kind in ("array", "list"):
                return self(self.I.snap(t))
            raise NoForm(f"object {h.kind}")
        if not isinstance(t, Term):
            raise NoForm(f"{t}")
        if is_const(t):
            v = cval(t)
            if isinstance(v, (int, float, complex, Fraction)):
                return num(complex(v) if not isinstance(v, Fraction) else float(v))
            raise NoForm(f"constant {v!r}")
        o = t.op
        if o == "pi":
            return num(math.pi)
        if o == "lin":
            r = num(complex(t.args[1]) if not isinstance(t.args[1], Fraction) else float(t.args[1]))
            for x, c in t.args[0]:
                y = self(x)
                if not isinstance(y, El):
                    raise NoForm("array in a sum")
                r = r + y * num(complex(c) if not isinstance(c, Fraction) else float(c))
            return r
        if o == "mul":
            a, b = self(t.args[0]), self(t.args[1])
            return broadcast(a, b, lambda x, y: x * y)
        if o == "conj":
            a = self(t.args[0])
            return a.conj() if isinstance(a, El) else a.map(lambda x: x.conj())
        if o == "bin":
            if t.args[0] == "/":
                b = self(t.args[2])
                return broadcast(self(t.args[1]), b, lambda x, y: x * inv(y))
            if t.args[0] == "**":
                return self.pow(self(t.args[1]), t.args[2])
            raise NoForm(f"operator {t.args[0]}")
        if o == "after":
            from . import simkernels
            call = t.args[0]
            if call.op != "kernel":
                old = self(t.args[1])
                name = T("amp", self.I.amp_id(call, simkernels.matrix_term(old)))
                return Nd(old.shape, [var(T("at", name, const(i))) for i in range(len(old.v))])
            m = call.args[2]
            if isinstance(m, Term) and m.op == "matrix":
                m = simkernels.matrix_of(m)
            elif m != NONE:
                m = self(m)
            return simkernels.apply_kernel(Call(call.args[0], call.args[1], m, *call.args[3:]), self(t.args[1]))
        if o == "pow2":
            return num(2 ** self.int(t.args[0]))
        if o == "ext":
            return self.ext(t.args[0], [x.args[0] for x in t.args[1].args if x.op == "one"] if all(x.op == "one" for x in t.args[1].args) else None, dict(t.args[2]))
        if o in ("list", "tuple"):
            return self.nested(t.args[0])
        if o == "aset":
            a, v = self(t.args[0]), self(t.args[2])
            return self.store(a, t.args[1], self.narrowed(t.args[0], v))
        if o == "aget":
            r = self.row_of_eye(t)
            return r if r is not None else self.load(self(t.args[0]), t.args[1])
        if o in ("real", "imag"):
            return SCALAR[o](self(t.args[0]))
        if o == "at":
            try:
                return self.load(self.arr(t.args[0]), t.args[1])
            except NoForm:
                pass
        if self.leaf is not None:
            r = self.leaf(t)
            if r is not None:
                return r
        k = self.I.typ(t)[0]
        if contains_any(t, lambda x: isinstance(x, Term) and x.op in ("ext", "aget", "aset", "foldn", "vcall", "ures", "bin")):
            raise NoForm(f"{o}")
        if k in ("num", "int", "float", "any"):
            return var(t)
        raise NoForm(f"{o}")

    def row_of_eye(self, t):
        """One row, or one entry of it, of a large identity matrix some of whose rows were replaced, without building the matrix."""
        its = [x.args[0] for x in t.args[1].args[0].args] if isinstance(t.args[1], Term) and t.args[1].op == "tuple" else [t.args[1]]
        if not all(is_int_const(x) for x in its):
            return None
        stores, a = [], t.args[0]
        while isinstance(a, Ref):
            a = self.I.snap(a)
        while isinstance(a, Term) and a.op == "aset":
            if not is_int_const(a.args[1]):
                return None
            stores.append(a)
            a = a.args[0]
        if not (isinstance(a, Term) and a.op == "ext" and a.args[0] in ("numpy.eye", "numpy.identity") and len(a.args[1].args) == 1
                and a.args[1].args[0].op == "one" and is_int_const(a.args[1].args[0].args[0]) and set(dict(a.args[2])) <= {"dtype"}):
            return None
        n, i = cval(a.args[1].args[0].args[0]), cval(its[0])
        if n < 256 or len(its) > 2 or not all(-n <= cval(x) < n for x in its):
            return None
        for x in stores:
            j = cval(x.args[1])
            if not -n <= j < n:
                return None
            if (i - j) % n == 0:
                row = self.narrowed(x.args[0], self(x.args[2]))
                if not isinstance(row, Nd) or row.shape != (n,):
                    return None
                break
        else:
            if len(its) == 2:
                return num(1 if (i - cval(its[1])) % n == 0 else 0)
            one_, zero = num(1), num(0)
            row = Nd((n,), [one_ if k == i % n else zero for k in range(n)])
        return row.at((cval(its[1]),)) if len(its) == 2 else row

    def narrowed(self, t, v):
        """A value as it is stored in the array t: arrays of real numbers drop imaginary parts, arrays of integers fractions."""
        while isinstance(t, Term) and t.op in ("aset", "after"):
            t = t.args[0] if t.op == "aset" else t.args[1]
        kind = self.element_kind(t)
        if kind is None:
            return v

        def one_(x):
            x = (x + x.conj()) * num(0.5)
            if kind == "int":
                c = x.const()
                if c is None:
                    raise NoForm("value stored in an array of integers")
                x = num(int(c.real))
            return x
        return one_(v) if isinstance(v, El) else v.map(one_)

    def element_kind(self, t):
        """float or int where the array value shows that it holds no complex numbers."""
        if not (isinstance(t, Term) and t.op == "ext" and t.args[1].args and all(x.op == "one" for x in t.args[1].args)):
            return None
        p, a = t.args[0], [x.args[0] for x in t.args[1].args]
        kw = dict(t.args[2])
        if "dtype" in kw:
            dn = show_full(kw["dtype"]);
            return None if "complex" in dn or "float" not in dn and "int" not in dn else "float" if "float" in dn else "int"
        if p in ("numpy.zeros", "numpy.ones", "numpy.eye", "numpy.identity", "numpy.empty"):
            return "float" if len(a) == 1 or p == "numpy.eye" and len(a) <= 3 else None
        if p in ("numpy.array", "numpy.asarray") and len(a) == 1:
            kinds = set()
            todo = [a[0]]
            while todo:
                x = todo.pop()
                if isinstance(x, Ref):
                    x = self.I.snap(x)
                if isinstance(x, Term) and x.op in ("list", "tuple") and all(y.op == "one" for y in x.args[0].args):
                    todo += [y.args[0] for y in x.args[0].args]
                else:
                    kinds.add(type(cval(x)) if is_const(x) and isinstance(cval(x), (bool, int, float, complex)) else None)
            if kinds <= {bool, int}:
                return "int"
            if kinds <= {bool, int, float}:
                return "float"
        return None

    def pow(self, a, n):
        k = self.int(n) if not (is_num_const(n) and cval(n) == 0.5) else None
        if k is None:
            return SCALAR["sqrt"](a) if isinstance(a, El) else a.map(SCALAR["sqrt"])
        return power(a, k) if isinstance(a, El) else a.map(lambda x: power(x, k))

    def ext(self, p, a, kw):
        if a is None:
            raise NoForm("starred call")
        dt = kw.get("dtype")
        name = p.split(".")[-1]
        if set(kw) - {"dtype", "copy", "order", "k", "M"} or "k" in kw and name != "eye":
            raise NoForm(f"keywords of {name}")
        if dt is not None:
            dn = show_full(dt)
            if "complex" not in dn:
                if not any(k in dn for k in ("float", "int", "bool")):
                    raise NoForm(f"dtype {dn}")
                r = self.ext(p, a, {k: v for k, v in kw.items() if k != "dtype"})
                for x in r.v if isinstance(r, Nd) else [r]:
                    c = x.const()
                    if c is None or abs(c.imag) > EPS or "float64" not in dn and abs(c.real - round(c.real)) > EPS:
                        raise NoForm("value cut to a narrower type")
                return r
        if p in ("+", "-", "*", "/"):
            f = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x * inv(y)}[p]
            return broadcast(self(a[0]), self(a[1]), f)
        if p == "**":
            return self.pow(self(a[0]), a[1])
        if p == "@" or name in ("matmul", "dot") and len(a) == 2:
            x, y = self(a[0]), self(a[1])
            if name in ("dot",) and (isinstance(x, El) or isinstance(y, El)):
                return broadcast(x, y, lambda u, v: u * v)
            return matmul(x, y)
        if name == "kron":
            return kron(self(a[0]), self(a[1]))
        if name == "astype" and len(a) > 1 and "complex" not in show_full(a[1]):
            raise NoForm("cast")
        if name in ("array", "asarray", "ascontiguousarray", "copy", "astype", "complex128", "complex", "float64", "float", "asmatrix", "require"):
            return self(a[0])
        if name in ("eye", "identity"):
            k = self.int(kw.get("k", a[2] if len(a) > 2 else const(0)))
            m = kw.get("M", a[1] if len(a) > 1 and name == "eye" else None)
            return eye(self.int(a[0]), self.int(m) if m is not None and m != NONE else None, k)
        if name in ("zeros", "ones"):
            sh = self.shape(a[0])
            n = math.prod(sh)
            return Nd(sh, [num(0 if name == "zeros" else 1)] * n)
        if name == "full":
            sh = self.shape(a[0])
            return Nd(sh, [self(a[1])] * math.prod(sh))
        if name in ("zeros_like", "ones_like"):
            return self(a[0]).map(lambda x: num(0 if name[0] == "z" else 1))
        if name == "diag":
            v = self(a[0])
            if len(v.shape) == 1:
                n = v.shape[0]
                return Nd((n, n), [v.v[i] if i == j else num(0) for i in range(n) for j in range(n)])
            return Nd((min(v.shape),), [v.at((i, i)) for i in range(min(v.shape))])
        if name in ("transpose", "T") and len(a) == 1:
            return self(a[0]).T
        if name in ("fliplr", "flipud"):
            v = self(a[0])
            r = Nd(v.shape, [])
            r.v = [v.at((i, -1 - j) if name == "fliplr" else (-1 - i, j)) for i, j in v.index()]
            return r
        if name == "reshape":
            v = self.arr(a[0])
            sh = self.shape(a[1]) if len(a) == 2 else [self.int(x) for x in a[1:]]
            if -1 in sh:
                k = math.prod(x for x in sh if x != -1)
                sh = [len(v.v) // k if x == -1 else x for x in sh]
            order = kw.get("order")
            order = "C" if order is None else cval(order) if is_str_const(order) else None
            if math.prod(sh) != len(v.v) or set(kw) - {"order"} or order not in ("C", "F"):
                raise NoForm("reshape")
            if order == "F":
                r = Nd(tuple(reversed(sh)), [x for x in v.T.v])
                return r.T
            return Nd(sh, v.v)
        if name == "outer":
            x, y = self(a[0]), self(a[1])
            return Nd((len(x.v), len(y.v)), [u * w for u in x.v for w in y.v])
        if name in ("flatten", "ravel"):
            v = self.arr(a[0])
            order = [one_ for one_ in a[1:]] + [kw[k] for k in kw if k == "order"]
            order = "C" if not order else cval(order[0]) if is_str_const(order[0]) else None
            if order not in ("C", "F") or set(kw) - {"order"}:
                raise NoForm(name)
            return Nd((len(v.v),), v.v if order == "C" else v.T.v)
        if name == "block":
            return self.block(a[0])
        if name in ("add", "subtract", "multiply", "divide", "true_divide"):
            return self.ext({"a": "+", "s": "-", "m": "*", "d": "/", "t": "/"}[name[0]], a, {})
        if name == "power":
            return self.pow(self(a[0]), a[1])
        if name in SCALAR and len(a) == 1:
            v = self(a[0])
            f = SCALAR[name]
            return f(v) if isinstance(v, El) else v.map(f)
        if name in CONSTF and len(a) == 1:
            f = constf({"abs": abs, "fabs": abs, "log": cmath.log, "log2": lambda c: cmath.log(c, 2), "floor": lambda c: math.floor(c.real)}[name])
            v = self(a[0])
            return f(v) if isinstance(v, El) else v.map(f)
        if name == "rect" and len(a) == 2:
            return self(a[0]) * exp(I_ * self(a[1]))
        raise NoForm(f"function {p}")

    def block(self, t):
        rows = [x.args[0] for x in t.args[0].args]
        out, width = [], None
        for r in rows:
            cells = [self.arr(x.args[0]) for x in r.args[0].args]
            h = {c.shape[0] for c in cells}
            if len(h) != 1:
                raise NoForm("block")
            for i in range(h.pop()):
                out.append([c.at((i, j)) for c in cells for j in range(c.shape[1])])
        return Nd((len(out), len(out[0])), [x for r in out for x in r])

    def indices(self, sh, it):
        """Positions an index addresses, and the shape of the result."""
        its = [x.args[0] for x in it.args[0].args] if isinstance(it, Term) and it.op == "tuple" else [it]
        if len(its) > len(sh):
            raise NoForm("index")
        axes, rsh = [], []
        for k, n in enumerate(sh):
            if k >= len(its):
                axes.append(list(range(n)))
                rsh.append(n)
                continue
            x = its[k]
            if isinstance(x, Term) and x.op == "sl":
                b = [None if y is None or y == NONE else self.int(y) for y in x.args]
                r = list(range(n))[slice(*b)]
                axes.append(r)
                rsh.append(len(r))
            elif isinstance(x, Term) and x.op in ("list",):
                raise NoForm("fancy index")
            else:
                i = self.int(x)
                if not -n <= i < n:
                    raise Mismatch("index out of range")
                axes.append([i % n])
        pos = [()]
        for r in axes:
            pos = [p + (i,) for p in pos for i in r]
        return pos, rsh

    def load(self, a, it):
        if not isinstance(a, Nd):
            raise NoForm("index of a scalar")
        pos, sh = self.indices(a.shape, it)
        v = [a.at(p) for p in pos]
        return Nd(sh, v) if sh else v[0]

    def store(self, a, it, v):
        if not isinstance(a, Nd):
            raise NoForm("index of a scalar")
        pos, sh = self.indices(a.shape, it)
        r = Nd(a.shape, a.v)
        if isinstance(v, Nd):
            v = broadcast(v, Nd(sh, [num(0)] * math.prod(sh)), lambda x, y: x) if v.shape != tuple(sh) else v
        for k, p in enumerate(pos):
            i = 0
            for x, n in zip(p, a.shape):
                i = i * n + x
            r.v[i] = v.v[k] if isinstance(v, Nd) else v
        return r


def normal(engine, t, leaf=None):
    """Nd or El, or None if the term is outside the fragment."""
    try:
        return Eval(engine, leaf)(t)
    except (NoForm, RecursionError):
        return None
    except (ValueError, TypeError, IndexError, AttributeError, KeyError, ZeroDivisionError, OverflowError):
        return None
