"""The meaning of the generated C kernels, for every number of qubits.

A kernel is analysed once per ordering of its qubit arguments.  In one ordering the bit positions of the
qubits are 0 <= p1 < p2 < ... < n, written with gap variables (p1 = g0, p2 = g0 + 1 + g1, ..., n = ... + gk,
all gaps >= 0), so that every position, mask and count is a linear form in the gaps.  A 64-bit word is a list of
pieces between such positions: constant zeros, constant ones, or bits of the loop variable.  Amplitudes are
polynomials over the state's old amplitudes and the matrix entries.  One generic iteration of the loop over the
2**m partial basis states is analysed; an address in which every loop bit occurs once and the other bits are
constants is injective in the loop variable, so different iterations touch different amplitudes.
"""
from __future__ import annotations
import itertools
import re


class Unclear(Exception):
    """Outside the fragment."""


class Wrong(Exception):
    """The kernel does not do what any gate kernel does."""
    def __init__(self, msg, line):
        super().__init__(msg)
        self.msg, self.line = msg, line


# ------------------------------------------------------------------ C front end
TOKEN = re.compile(r"\s*(?:(//[^\n]*|/\*.*?\*/)|(#[^\n]*)|(0[xX][0-9a-fA-F]+[uUlL]*|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?[uUlLfF]*)|([A-Za-z_]\w*(?:::\w+)*)"
                   r"|(<<=|>>=|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|\|=|&=|\^=|->|[-+*/%&|^~!<>=?:;,.(){}\[\]]))", re.S)
TYPES = {"uint64_t", "int64_t", "uint32_t", "int32_t", "int", "unsigned", "long", "size_t", "double", "float", "bool", "auto", "void", "std::complex", "std::size_t", "std::uint64_t", "short", "char", "signed",
         "std::array", "std::vector", "ptrdiff_t", "ssize_t", "complex_t"}
QUAL = {"const", "static", "inline", "constexpr", "register", "volatile", "__restrict", "__restrict__", "restrict", "extern"}
INT64 = {"uint64_t", "int64_t", "long", "size_t", "std::size_t", "std::uint64_t", "ptrdiff_t", "ssize_t"}


def tokens(src):
    out, i, line = [], 0, 1
    while True:
        m = TOKEN.match(src, i)
        if not m:
            if src[i:].strip():
                raise Unclear(f"C text at line {line}")
            return out
        line += src.count("\n", i, m.start(m.lastindex))
        here = line
        line += src.count("\n", m.start(m.lastindex), m.end())
        i = m.end()
        if m.group(3):
            out.append(("num", m.group(3), here))
        elif m.group(4):
            out.append(("id", m.group(4), here))
        elif m.group(5):
            out.append(("op", m.group(5), here))


class Parser:
    """Functions of a C/C++ header of simple functions, as tuples."""

    def __init__(self, src):
        self.t, self.i, self.typedefs = tokens(src), 0, set()

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    @property
    def line(self):
        return self.t[min(self.i, len(self.t) - 1)][2]

    def next(self):
        if self.i >= len(self.t):
            raise Unclear("end of C text")
        self.i += 1
        return self.t[self.i - 1][1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unclear(f"line {self.line}: expected {x}, found {self.peek()}")

    def is_type(self, k=0):
        return self.kind(k) == "id" and (self.peek(k) in TYPES or self.peek(k) in QUAL or self.peek(k) in self.typedefs)

    def type(self):
        """A type; its base name, and whether it is a pointer or reference."""
        names = []
        while self.is_type():
            x = self.next()
            if x not in QUAL:
                names.append(x)
            if self.peek() == "<" and x.startswith("std::"):
                depth = 0
                while True:
                    y = self.next()
                    depth += {"<": 1, ">": -1, ">>": -2}.get(y, 0)
                    if depth <= 0:
                        break
        ptr = ""
        while self.peek() in ("*", "&") or self.peek() in QUAL:
            x = self.next()
            ptr += x if x in "*&" else ""
        if not names:
            raise Unclear(f"line {self.line}: type expected")
        return " ".join(names), ptr

    def unit(self):
        fs = {}
        while self.i < len(self.t):
            if self.peek() in ("typedef", "using"):
                while self.next() != ";":
                    if self.peek(1) in (";", "="):
                        self.typedefs.add(self.peek())
                continue
            if self.eat(";"):
                continue
            if self.peek() == "extern" or self.peek() == "namespace":
                raise Unclear("linkage blocks")
            line = self.line
            ty = self.type()
            name = self.next()
            if not self.eat("("):
                raise Unclear(f"line {self.line}: global variable")
            params = []
            while not self.eat(")"):
                t = self.type()
                p = self.next()
                if self.eat("["):
                    self.need("]")
                    t = (t[0], t[1] + "*")
                params.append((t, p))
                self.eat(",")
            if self.eat(";"):
                continue
            fs[name] = ("func", ty, name, params, self.block(), line)
        return fs

    def block(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out.append(self.stmt())
        return ("block", out)

    def stmt(self):
        line = self.line
        if self.peek() == "{":
            return self.block()
        if self.eat(";"):
            return ("block", [])
        if self.eat("for"):
            self.need("(")
            init = self.stmt() if not self.eat(";") else ("block", [])
            cond = ("num", "1", line) if self.peek() == ";" else self.expr()
            self.need(";")
            step = ("block", []) if self.peek() == ")" else ("expr", self.expr(), line)
            self.need(")")
            return ("for", init, cond, step, self.stmt(), line)
        if self.eat("while"):
            self.need("(")
            c = self.expr()
            self.need(")")
            return ("for", ("block", []), c, ("block", []), self.stmt(), line)
        if self.eat("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            b = self.stmt() if self.eat("else") else ("block", [])
            return ("if", c, a, b, line)
        if self.eat("return"):
            e = None if self.peek() == ";" else self.expr()
            self.need(";")
            return ("return", e, line)
        if self.peek() in ("continue", "break"):
            x = self.next()
            self.need(";")
            return (x, line)
        if self.is_type() and not (self.peek(1) == "(" and self.peek() in TYPES):
            out = []
            ty, ptr = self.type()
            while True:
                while self.peek() in ("*", "&"):
                    ptr += self.next()
                name = self.next()
                dim = None
                if self.eat("["):
                    dim = ("auto",) if self.peek() == "]" else self.expr()
                    self.need("]")
                init = None
                if self.eat("="):
                    init = self.braces() if self.peek() == "{" else self.expr(1)
                elif self.peek() == "{":
                    init = self.braces()
                elif self.eat("("):
                    init = self.expr(1)
                    self.need(")")
                out.append(("decl", (ty, ptr), name, dim, init, line))
                if not self.eat(","):
                    break
            self.need(";")
            return ("block*", out)
        e = self.expr()
        self.need(";")
        return ("expr", e, line)

    def braces(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out.append(self.braces() if self.peek() == "{" else self.expr(1))
            self.eat(",")
        return ("braces", out)

    PREC = {"||": 4, "&&": 5, "|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10, "<=": 10, ">=": 10, "<<": 11, ">>": 11, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13}

    def expr(self, lo=0):
        line = self.line
        a = self.unary()
        while True:
            op = self.peek()
            if self.kind() != "op":
                return a
            if op in self.PREC and self.PREC[op] > lo:
                self.next()
                b = self.expr(self.PREC[op])
                a = ("bin", op, a, b, line)
            elif op == "?" and lo <= 3:
                self.next()
                b = self.expr(1)
                self.need(":")
                a = ("cond", a, b, self.expr(2), line)
            elif op in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=") and lo <= 2:
                self.next()
                b = self.expr(1)
                a = ("assign", op, a, b, line)
            elif op == "," and lo == 0:
                self.next()
                a = ("comma", a, self.expr(1), line)
            else:
                return a

    def unary(self):
        line = self.line
        op = self.peek()
        if self.kind() == "op" and op in ("-", "+", "~", "!", "++", "--", "&", "*"):
            self.next()
            return ("un", op, self.unary(), line)
        if op == "(" and self.is_type(1):
            self.next()
            ty = self.type()
            self.need(")")
            return ("cast", ty, self.unary(), line)
        return self.postfix()

    def postfix(self):
        line = self.line
        if self.eat("("):
            e = self.expr()
            self.need(")")
        elif self.kind() == "num":
            e = ("num", self.next(), line)
        elif self.kind() == "id":
            name = self.next()
            if name in ("static_cast", "reinterpret_cast", "const_cast"):
                self.need("<")
                ty = self.type()
                self.need(">")
                self.need("(")
                x = self.expr()
                self.need(")")
                e = ("cast", ty, x, line)
            elif name in TYPES:
                if self.peek() == "<":
                    self.i -= 1
                    ty = self.type()
                else:
                    ty = (name, "")
                if self.peek() == "{":
                    e = ("cast", ty, ("braces", self.braces()[1]), line)
                else:
                    self.need("(")
                    xs = []
                    while not self.eat(")"):
                        xs.append(self.expr(1))
                        self.eat(",")
                    e = ("cast", ty, xs[0] if len(xs) == 1 else ("braces", xs), line)
            else:
                e = ("name", name, line)
        else:
            raise Unclear(f"line {line}: expression expected, found {self.peek()}")
        while True:
            if self.eat("["):
                x = self.expr()
                self.need("]")
                e = ("index", e, x, line)
            elif self.peek() == "(" and e[0] in ("name", "member"):
                self.next()
                xs = []
                while not self.eat(")"):
                    xs.append(self.expr(1))
                    self.eat(",")
                e = ("call", e, xs, line)
            elif self.eat("."):
                e = ("member", e, self.next(), line)
            elif self.peek() in ("++", "--"):
                e = ("post", self.next(), e, line)
            else:
                return e


# ------------------------------------------------------------------ linear forms in the gaps
class Lin:
    """c + sum of a_i * g_i; g_i >= 0."""
    __slots__ = ("a", "c")

    def __init__(self, a=(), c=0):
        self.a, self.c = tuple(sorted((k, v) for k, v in dict(a).items() if v)), c

    def __add__(self, o):
        d = dict(self.a)
        for k, v in o.a:
            d[k] = d.get(k, 0) + v
        return Lin(d, self.c + o.c)

    def __neg__(self):
        return Lin({k: -v for k, v in self.a}, -self.c)

    def __sub__(self, o):
        return self + -o

    def times(self, k):
        return Lin({x: v * k for x, v in self.a}, self.c * k)

    def __eq__(self, o):
        return isinstance(o, Lin) and (self.a, self.c) == (o.a, o.c)

    def __hash__(self):
        return hash((self.a, self.c))

    @property
    def const(self):
        return None if self.a else self.c

    def __repr__(self):
        s = " + ".join([f"{v if v != 1 else ''}g{k}" for k, v in self.a] + ([str(self.c)] if self.c or not self.a else []))
        return s.replace("+ -", "- ")


def num(c):
    return Lin((), c)


def le(a, b):
    """a <= b: True, False or None."""
    d = b - a
    if all(v >= 0 for _, v in d.a) and d.c >= 0:
        return True
    if all(v <= 0 for _, v in d.a) and d.c < 0:
        return False
    return None


def smaller(a, b):
    """The smaller of two lengths."""
    if le(a, b) is True:
        return a
    if le(b, a) is True:
        return b
    raise Unclear(f"order of {a} and {b}")


def sure_le(a, b):
    r = le(a, b)
    if r is None:
        raise Unclear(f"order of {a} and {b}")
    return r


# ------------------------------------------------------------------ words
class Word:
    """Bits from low to high: pieces (length, kind, source offset); beyond the last piece the bits are `top`."""
    __slots__ = ("pieces", "top")

    def __init__(self, pieces, top=0):
        out = []
        for n, k, s in pieces:
            if n == num(0):
                continue
            if sure_le(num(0), n) is False:
                raise Unclear("negative length")
            if out and out[-1][1] == k and (k in (0, 1) or out[-1][2] + out[-1][0] == s):
                out[-1] = (out[-1][0] + n, k, out[-1][2])
            else:
                out.append((n, k, s))
        while out and out[-1][1] == top:
            out.pop()
        self.pieces, self.top = tuple(out), top

    def key(self):
        return self.pieces, self.top

    def __eq__(self, o):
        return isinstance(o, Word) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "[" + ", ".join(f"{k if k in (0, 1) else k + '@' + str(s)}*({n})" for n, k, s in self.pieces) + f"|{self.top}]"


def from_int(v):
    if v < 0:
        return Word([(num(1), b, None) for b in bits_of(~v, True)], 1)
    return Word([(num(1), b, None) for b in bits_of(v, False)], 0)


def bits_of(v, neg):
    out = []
    while v:
        out.append((v & 1) ^ neg)
        v >>= 1
    return out


def align(a, b):
    """Common refinement of the pieces of two words: [(length, kind a, source a, kind b, source b)]"""
    x, y, out = list(a.pieces), list(b.pieces), []
    while x or y:
        if not x:
            n, k, s = y.pop(0)
            out.append((n, a.top, None, k, s))
        elif not y:
            n, k, s = x.pop(0)
            out.append((n, k, s, b.top, None))
        else:
            (n, k, s), (m, l, t) = x[0], y[0]
            d = smaller(n, m)
            out.append((d, k, s, l, t))
            x.pop(0)
            y.pop(0)
            if n - d != num(0):
                x.insert(0, (n - d, k, None if s is None else s + d))
            if m - d != num(0):
                y.insert(0, (m - d, l, None if t is None else t + d))
    return out


def bitop(op, a, b):
    def one(k, s, l, t):
        if k in (0, 1) and l in (0, 1):
            return ({"&": k & l, "|": k | l, "^": k ^ l}[op], None)
        if k in (0, 1):
            k, s, l, t = l, t, k, s
        if l in (0, 1):
            if (op, l) in (("&", 1), ("|", 0), ("^", 0)):
                return (k, s)
            if (op, l) == ("&", 0):
                return (0, None)
            if (op, l) == ("|", 1):
                return (1, None)
            raise Unclear("flipped loop bits")
        if (k, s) == (l, t) and k == "x":
            return (0, None) if op == "^" else (k, s)
        if k == l == "x" and op in "&|":
            return ("b", s)             # a conjunction or disjunction of two loop bits
        raise Unclear("mixed loop bits")
    pieces = [(n, *one(k, s, l, t)) for n, k, s, l, t in align(a, b)]
    return Word(pieces, one(a.top, None, b.top, None)[0])


def invert(a):
    if any(k not in (0, 1) for _, k, _ in a.pieces):
        raise Unclear("inverted loop bits")
    return Word([(n, 1 - k, s) for n, k, s in a.pieces], 1 - a.top)


def shl(a, n):
    if sure_le(num(0), n) is False:
        raise Unclear("negative shift")
    return Word([(n, 0, None)] + list(a.pieces), a.top)


def shr(a, n):
    if sure_le(num(0), n) is False:
        raise Unclear("negative shift")
    out, left = [], n
    for m, k, s in a.pieces:
        if left == num(0):
            out.append((m, k, s))
        elif smaller(m, left) == m:
            left = left - m
        else:
            out.append((m - left, k, None if s is None else s + left))
            left = num(0)
    return Word(out, a.top)


def single_bit(a):
    """The position of the only one bit, or None."""
    pos, found = num(0), None
    if a.top:
        return None
    for n, k, _ in a.pieces:
        if k == 1:
            if found is not None or n != num(1):
                return None
            found = pos
        elif k != 0:
            return None
        pos = pos + n
    return found


def add_words(a, b):
    """Sum of words without common ones, or minus one from a single bit."""
    for x, y in ((a, b), (b, a)):
        if x == from_int(-1):
            p = single_bit(y)
            if p is not None:
                return Word([(p, 1, None)], 0)
    if a.top == 0 and b.top == 0 and all(k == 0 or l == 0 for _, k, _, l, _ in align(a, b)):
        return bitop("|", a, b)
    if a == b:
        return shl(a, num(1))
    raise Unclear("sum of words")


def negate(a):
    if a == Word([], 0):
        return a
    if all(k in (0, 1) for _, k, _ in a.pieces):
        p = single_bit(a)
        if p is not None:
            return Word([(p, 0, None)], 1)        # -(2**p) = ...1110...0
        c = as_int(a)
        if c is not None:
            return from_int(-c)
    raise Unclear("negated word")


def as_int(w):
    if w.top == 0 and all(k in (0, 1) and n.const is not None for n, k, _ in w.pieces):
        v, p = 0, 0
        for n, k, _ in w.pieces:
            v |= ((1 << n.const) - 1) * k << p
            p += n.const
        return v
    return None


def differ(a, b):
    """True when the words differ for all loop values, False when they are the same, None otherwise."""
    if a == b:
        return False
    for n, k, s, l, t in align(a, b):
        if k in (0, 1) and l in (0, 1) and k != l and le(num(1), n):
            return True
    return None


def truncated(w, n, line):
    """The value kept by an integer type of n bits (without its sign bit)."""
    if w.top == 0 and le(total_length(w), num(n)) is True:
        return w
    out, left = [], num(n)
    for m, k, s in w.pieces:
        d = smaller(m, left)
        out.append((d, k, s))
        left = left - d
    if left != num(0):
        out.append((left, w.top, None))
    return Word(out, 0)


def total_length(w):
    out = num(0)
    for n, _, _ in w.pieces:
        out = out + n
    return out


# ------------------------------------------------------------------ amplitudes
class Poly:
    """Sum of coefficient times product of symbols."""
    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if abs(v) > 1e-12}

    def __add__(self, o):
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(d)

    def __mul__(self, o):
        d = {}
        for k, v in self.d.items():
            for l, w in o.d.items():
                m = tuple(sorted(k + l, key=repr))
                d[m] = d.get(m, 0) + v * w
        return Poly(d)

    def scaled(self, c):
        return Poly({k: v * c for k, v in self.d.items()})

    def __eq__(self, o):
        return isinstance(o, Poly) and {k: complex(round(v.real, 9), round(v.imag, 9)) for k, v in self.items()} == {k: complex(round(v.real, 9), round(v.imag, 9)) for k, v in o.items()}

    def items(self):
        return [(k, complex(v)) for k, v in self.d.items()]


def sym(x):
    return Poly({(x,): 1})


def const_poly(c):
    return Poly({(): c})


class Scalar:
    """A real number that is not an integer of the analysis: the norm of an amplitude, or a sum over the loop."""
    def __init__(self, terms=(), total=()):
        self.terms, self.total = tuple(terms), tuple(total)      # norms in this iteration; norms summed over the loop


# ------------------------------------------------------------------ interpretation of one kernel in one ordering
class Return(Exception):
    pass


NARROW = {"int": 31, "unsigned": 32, "uint32_t": 32, "int32_t": 31, "short": 15, "char": 7, "uint16_t": 16, "int16_t": 15, "uint8_t": 8}


class Skip(Exception):
    def __init__(self, kind):
        self.kind = kind


class Run:
    def __init__(self, funcs, name, args, orders, n):
        self.funcs, self.n = funcs, n
        self.concrete = n.const is not None
        self.loop = None            # number of loop bits while in the loop
        self.writes, self.reads = {}, []
        self.order_of_writes = []
        self.sums = []
        self.loops = 0
        self.value = self.call(name, args, 0)

    def call(self, name, args, line):
        f = self.funcs.get(name)
        if f is None:
            raise Unclear(f"line {line}: call of {name}")
        _, _, _, params, body, fline = f
        if len(params) != len(args):
            raise Unclear(f"line {line}: arguments of {name}")
        env = {}
        for (ty, p), a in zip(params, args):
            env["$" + p] = ty
            env[p] = a if "&" in ty[1] or isinstance(a, tuple) and a[0] == "array" else a
            if "&" in ty[1] and not (isinstance(a, tuple)):
                raise Unclear("reference parameter")
        old = getattr(self, "returned", None)
        self.returned = None
        self.depth += 1
        try:
            self.exec(body, [env])
        except Return:
            pass
        self.depth -= 1
        v, self.returned = self.returned, old
        return v

    # -------------------------------------------------- statements
    def exec(self, s, env):
        k = s[0]
        if k == "block":
            inner = env + [{}]
            for x in s[1]:
                self.exec(x, inner)
        elif k == "block*":
            for x in s[1]:
                self.exec(x, env)
        elif k == "decl":
            _, ty, name, dim, init, line = s
            env[-1]["$" + name] = ty
            if "&" in ty[1] and init is not None and init[0] == "index" and dim is None:
                base, i = self.eval(init[1], env), widen(self.eval(init[2], env))
                if isinstance(base, tuple) and base[0] == "ptr":
                    base, i = base[1], self.arith("+", base[2], i, line)
                if isinstance(base, tuple) and base[0] == "state":
                    env[-1][name] = ("alias", base, self.address(i, line))
                    return
            if dim is not None or (init is not None and init[0] == "braces" and ty[0].startswith("std::array")):
                vals = [widen(self.eval(x, env)) for x in (init[1] if init else [])]
                if init is None:
                    m = self.eval(dim, env)
                    if not isinstance(m, Lin) or m.const is None:
                        raise Unclear("array size")
                    vals = [None] * m.const
                env[-1][name] = ("array", vals)
            else:
                if init is None:
                    v = None
                elif init[0] == "braces":
                    v = self.eval(init[1][0], env) if len(init[1]) == 1 else None
                else:
                    v = widen(self.eval(init, env))
                v = self.convert(ty, v, line) if v is not None else None
                if ty[0] in NARROW and ty[1] == "" and isinstance(v, Lin):
                    v = Narrow(v)
                env[-1][name] = v
                if ty[0] in ("double", "float") and isinstance(v, Lin) and v.const is not None and not ty[1]:
                    env[-1][name] = Scalar() if v.const == 0 else const_poly(v.const)
        elif k == "expr":
            self.eval(s[1], env)
        elif k == "if":
            self.exec(s[2] if self.truth(widen(self.eval(s[1], env))) else s[3], env)
        elif k == "return":
            self.returned = widen(self.eval(s[1], env)) if s[1] is not None else None
            if self.loop is not None and self.depth == self.loop_depth:
                raise Unclear(f"line {s[2]}: return in the loop")
            raise Return
        elif k in ("continue", "break"):
            if self.loop is not None and self.depth == self.loop_depth and self.inner == 0:
                raise Unclear(f"line {s[1]}: {k}")
            raise Skip(k)
        elif k == "for":
            self.for_(s, env)
        else:
            raise Unclear(f"statement {k}")

    inner = depth = loop_depth = 0

    def for_(self, s, env):
        _, init, cond, step, body, line = s
        e = env + [{}]
        self.exec(init, e)
        # a loop over a constant number of steps is unrolled
        m = self.basis_loop(s, e)
        if m is None:
            self.inner += 1
            for count in range(300):
                if not self.truth(widen(self.eval(cond, e))):
                    self.inner -= 1
                    return
                try:
                    self.exec(body, e)
                except Skip as x:
                    if x.kind == "break":
                        self.inner -= 1
                        return
                self.exec(step, e)
            raise Unclear(f"line {line}: long loop")
        var, bits = m
        if self.loop is not None:
            raise Unclear(f"line {line}: nested loop")
        self.loops += 1
        if self.loops > 1:
            raise Unclear(f"line {line}: several loops")
        outer = [dict(x) for x in e]
        e[-1][var] = Word([(bits, "x", num(0))], 0)
        self.loop, self.loop_line, self.loop_depth = bits, line, self.depth
        marks = {}
        for x in e:
            for name, v in x.items():
                if isinstance(v, Scalar):
                    marks[id(x), name] = x[name] = Scalar(v.terms, v.total + (("before", name),))
        self.exec(body, e)
        self.loop = None
        # what the loop left in variables declared outside
        for old, new in zip(outer, e):
            for name in new:
                a, b = old.get(name), new[name]
                if a is b or name == var or a == b and not isinstance(b, Scalar):
                    continue
                if isinstance(a, Scalar) and isinstance(b, Scalar) and not a.terms and b.total == a.total + (("before", name),):
                    new[name] = Scalar((), a.total + b.terms)
                elif isinstance(a, Scalar) and isinstance(b, Scalar) and ("before", name) not in b.total and b.terms:
                    raise Wrong("only the last basis state of the other qubits contributes to the result", line)
                else:
                    new[name] = ("unknown",)

    def basis_loop(self, s, e):
        """(variable, number of bits) of a loop that visits every number below a power of two."""
        _, init, cond, step, body, line = s
        c = cond
        if not (c[0] == "bin" and c[1] in ("<", "!=", ">", "<=", ">=")):
            return None
        l, r = (c[2], c[3]) if c[1] not in (">", ">=") else (c[3], c[2])
        if c[1] == "!=" and r[0] == "name" and step[0] == "expr" and ("name", r[1]) in [x[:2] for x in step[1] if isinstance(x, tuple)]:
            l, r = r, l
        if l[0] != "name":
            return None
        start = widen(self.lookup(l[1], e))
        bound = widen(self.eval(r, e))
        if c[1] in ("<=", ">="):
            if isinstance(bound, Lin) and bound.const is not None:
                bound = num(bound.const + 1)
            elif isinstance(bound, Word) and not bound.top and len(bound.pieces) == 1 and bound.pieces[0][1] == 1:
                bound = Word([(bound.pieces[0][0], 0, None), (num(1), 1, None)], 0)      # below 2**p
            elif self.as_lin(bound) is not None and self.as_lin(bound).const is not None:
                bound = num(self.as_lin(bound).const + 1)
            else:
                raise Unclear(f"line {line}: loop bound")
        if self.concrete and not self.inner and self.loop is None and self.touches(body, e):
            # all sizes are numbers here: the loop over basis states is told by its use of the state
            c0 = self.as_lin(bound)
            if c0 is None or c0.const is None or not (isinstance(start, Lin) and start.const == 0):
                raise Unclear(f"line {line}: loop bound")
            if c0.const <= 0 or c0.const & (c0.const - 1):
                raise Wrong(f"the loop runs over {c0.const} basis states of the other qubits", line)
            bound = Word([(num(c0.const.bit_length() - 1), 0, None), (num(1), 1, None)], 0)
        if isinstance(bound, Lin) and bound.const is not None:
            return None
        if not isinstance(bound, Word):
            raise Unclear(f"line {line}: loop bound")
        p = single_bit(bound)
        if p is None or not (isinstance(start, Lin) and start.const == 0):
            c0 = as_int(bound)
            if c0 is not None:
                return None
            raise Unclear(f"line {line}: loop bound")
        x = step[1] if step[0] == "expr" else None
        ok = x is not None and (x[0] in ("un", "post") and x[1] == "++" and x[2] == ("name", l[1], x[2][-1])
                                or x[0] == "assign" and x[1] == "+=" and x[2][:2] == ("name", l[1]) and x[3][:2] == ("num", "1"))
        if not ok:
            raise Unclear(f"line {line}: loop step")
        if self.assigned(body, l[1]):
            raise Unclear(f"line {line}: loop variable changes")
        ty = next((x["$" + l[1]] for x in reversed(e) if "$" + l[1] in x), ("uint64_t", ""))
        if ty[0] in NARROW and sure_le(p, num(NARROW[ty[0]])) is False:
            raise Wrong("the loop variable cannot count all basis states", line)
        return l[1], p

    def touches(self, s, env):
        """Whether a statement uses the state's amplitudes."""
        if isinstance(s, tuple) and len(s) > 1 and s[0] == "name":
            for x in reversed(env):
                if s[1] in x:
                    v = x[s[1]]
                    return isinstance(v, tuple) and (v[0] == "state" or v[0] == "ptr" and v[1][0] == "state")
            return False
        return isinstance(s, (tuple, list)) and any(self.touches(x, env) for x in s)

    def assigned(self, s, name):
        if isinstance(s, tuple):
            if s and s[0] in ("assign",) and s[2][:2] == ("name", name):
                return True
            if s and s[0] in ("un", "post") and s[1] in ("++", "--", "&") and s[2][:2] == ("name", name):
                return True
            return any(self.assigned(x, name) for x in s)
        if isinstance(s, list):
            return any(self.assigned(x, name) for x in s)
        return False

    # -------------------------------------------------- values
    def convert(self, ty, v, line):
        if isinstance(v, Lin) or isinstance(v, Word):
            if ty[1] == "" and ty[0] in NARROW and isinstance(v, Word):
                return truncated(v, NARROW[ty[0]], line)
            if ty[1] == "" and ty[0] in NARROW and isinstance(v, Lin) and v.const is not None and v.const >> NARROW[ty[0]]:
                return truncated(from_int(v.const), NARROW[ty[0]], line)
            if ty[0].startswith("std::complex") and isinstance(v, Lin):
                return const_poly(v.const)
        return v

    def lookup(self, name, env):
        for e in reversed(env):
            if name in e:
                return e[name]
        raise Unclear(f"name {name}")

    def store_name(self, name, v, env):
        for e in reversed(env):
            if name in e:
                ty = e.get("$" + name)
                e[name] = self.convert(ty, v, 0) if ty is not None else v
                return
        raise Unclear(f"name {name}")

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Lin) and v.const is not None:
            return v.const != 0
        if isinstance(v, Word):
            c = as_int(v)
            if c is not None:
                return c != 0
            if any(k == 1 and le(num(1), n) for n, k, _ in v.pieces):
                return True
        raise Unclear("condition")

    def word(self, v, line=0):
        if isinstance(v, Word):
            return v
        if isinstance(v, Lin) and v.const is not None:
            return from_int(v.const)
        if isinstance(v, bool):
            return from_int(int(v))
        raise Unclear(f"line {line}: bits of {v}")

    def as_lin(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, bool):
            return num(int(v))
        if isinstance(v, Word):
            c = as_int(v)
            if c is not None:
                return num(c)
        return None

    def poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, Lin) and v.const is not None:
            return const_poly(v.const)
        raise Unclear("amplitude")

    def amp(self, w, line):
        """The present content of the state at an address."""
        if self.loop is None:
            raise Unclear(f"line {line}: amplitude outside the loop")
        self.check_address(w, line)
        self.reads.append(w)
        for x, v in self.writes.items():
            d = differ(w, x)
            if d is False:
                return v
            if d is None:
                raise Unclear(f"line {line}: addresses that may agree")
        return sym(("amp", w))

    def check_address(self, w, line):
        """Every bit of the loop variable occurs once, below the size of the state."""
        parts, pos = [], num(0)
        for n, k, s in w.pieces:
            if k == "b":
                # ones and zeros are not equally frequent there, so the addresses do not cover the states evenly
                raise Wrong("the loop does not visit every basis state of the other qubits exactly once", line)
            if k == "x":
                parts.append((s, n))
            pos = pos + n
        if w.top or le(pos, self.n) is not True:
            if le(pos, self.n) is False or w.top:
                raise Wrong("an address outside the state", line)
            raise Unclear(f"line {line}: address range")
        parts.sort(key=lambda p: (len(p[0].a), p[0].c, repr(p[0])))
        here, rest = num(0), list(parts)
        while rest:
            nxt = [p for p in rest if p[0] == here]
            if not nxt:
                break
            here = here + nxt[0][1]
            rest.remove(nxt[0])
        if here != self.loop or rest:
            raise Wrong("the loop does not visit every basis state of the other qubits exactly once", line)

    def eval(self, e, env):
        k, line = e[0], e[-1] if isinstance(e[-1], int) else 0
        if k == "num":
            x = e[1].lower()
            if x.startswith("0x"):
                return num(int(x.rstrip("ul"), 16))
            if re.fullmatch(r"\d+[ul]*", x):
                v = num(int(x.rstrip("ul")))
                return v if "l" in x else Narrow(v)
            return const_poly(float(x.rstrip("fl")))
        if k == "name":
            if e[1] in ("NULL", "nullptr"):
                return ("null",)
            if e[1] in ("true", "false"):
                return num(int(e[1] == "true"))
            v = self.lookup(e[1], env)
            if v is None or v == ("unknown",):
                raise Unclear(f"line {line}: value of {e[1]}")
            if isinstance(v, tuple) and v[0] == "alias":
                return self.amp(v[2], line)
            return v
        if k == "cast":
            v = self.eval(e[2], env)
            if e[1][0] in INT64:
                return widen(v)
            if e[1][0] in ("double", "float", "std::complex") and not e[1][1]:
                v = widen(v)
                return const_poly(v.const) if isinstance(v, Lin) and v.const is not None else v
            return v
        if k == "braces":
            raise Unclear(f"line {line}: braces")
        if k == "cond":
            return self.eval(e[2] if self.truth(widen(self.eval(e[1], env))) else e[3], env)
        if k == "comma":
            self.eval(e[1], env)
            return self.eval(e[2], env)
        if k == "un":
            return self.unary(e, env, line)
        if k == "post" or (k == "un" and e[1] in ("++", "--")):
            old = self.eval(e[2], env)
            self.assign(e[2], self.arith("+" if e[1] == "++" else "-", widen(old), num(1), line), env, line)
            return old
        if k == "bin":
            if e[1] in ("&&", "||"):
                a = self.truth(widen(self.eval(e[2], env)))
                if a == (e[1] == "||"):
                    return num(int(a))
                return num(int(self.truth(widen(self.eval(e[3], env)))))
            a, b = self.eval(e[2], env), self.eval(e[3], env)
            if isinstance(a, tuple) and a[0] in ("array", "ptr", "state", "matrix"):
                return self.pointer(e[1], a, widen(b), line)
            if isinstance(b, tuple) and b[0] in ("array", "ptr", "state", "matrix") and e[1] == "+":
                return self.pointer("+", b, widen(a), line)
            return self.arith(e[1], a, b, line)
        if k == "assign":
            v = self.eval(e[3], env)
            if e[1] != "=":
                v = self.arith(e[1][:-1], self.eval(e[2], env), v, line)
            v = widen(v)
            self.assign(e[2], v, env, line)
            return v
        if k == "index":
            return self.load(self.eval(e[1], env), widen(self.eval(e[2], env)), line)
        if k == "call":
            return self.builtin(e, env, line)
        raise Unclear(f"line {line}: expression {k}")

    def unary(self, e, env, line):
        op = e[1]
        if op in ("++", "--"):
            v = self.arith("+" if op == "++" else "-", widen(self.eval(e[2], env)), num(1), line)
            self.assign(e[2], v, env, line)
            return v
        if op == "*":
            return self.load(self.eval(e[2], env), num(0), line)
        if op == "&":
            if e[2][0] == "index":
                return self.pointer("+", self.eval(e[2][1], env), widen(self.eval(e[2][2], env)), line)
            raise Unclear(f"line {line}: address")
        v = self.eval(e[2], env)
        if op == "~":
            return invert(self.word(widen(v), line))        # sign extension keeps the value
        if op == "!":
            return num(int(not self.truth(widen(v))))
        if op == "+":
            return v
        v = widen(v)
        if isinstance(v, Lin):
            return -v
        if isinstance(v, Poly):
            return v.scaled(-1)
        return negate(self.word(v, line))

    def pointer(self, op, p, off, line):
        base, o = (p, num(0)) if p[0] != "ptr" else (p[1], p[2])
        if op == "+":
            return ("ptr", base, self.arith("+", o, off, line))
        if op == "-":
            return ("ptr", base, self.arith("-", o, off, line))
        raise Unclear(f"line {line}: pointer")

    def load(self, base, i, line):
        if isinstance(base, tuple) and base[0] == "ptr":
            base, i = base[1], self.arith("+", base[2], i, line)
        if not isinstance(base, tuple):
            raise Unclear(f"line {line}: indexing")
        if base[0] == "array":
            j = self.as_lin(i)
            if j is None or j.const is None:
                raise Unclear(f"line {line}: array index")
            if not 0 <= j.const < len(base[1]):
                raise Wrong("an index outside an array", line)
            v = base[1][j.const]
            if v is None:
                raise Unclear(f"line {line}: unset array element")
            return v
        if base[0] == "matrix":
            j = self.as_lin(i)
            if j is None or j.const is None:
                raise Unclear(f"line {line}: matrix index")
            return sym(("gate", j.const))
        if base[0] == "state":
            return self.amp(self.address(i, line), line)
        if base[0] == "null":
            raise Wrong("a missing matrix is read", line)
        raise Unclear(f"line {line}: indexing {base[0]}")

    def address(self, i, line):
        return self.word(i, line)

    def assign(self, target, v, env, line):
        if target[0] == "name":
            old = self.lookup(target[1], env)
            if isinstance(old, tuple) and old[0] == "alias":
                return self.put(old[2], v, line)
            return self.store_name(target[1], v, env)
        if target[0] == "index" or target[0] == "un" and target[1] == "*":
            base = self.eval(target[1] if target[0] == "index" else target[2], env)
            i = widen(self.eval(target[2], env)) if target[0] == "index" else num(0)
            if isinstance(base, tuple) and base[0] == "ptr":
                base, i = base[1], self.arith("+", base[2], i, line)
            if base[0] == "array":
                j = self.as_lin(i)
                if j is None or j.const is None or not 0 <= j.const < len(base[1]):
                    raise Unclear(f"line {line}: array index")
                base[1][j.const] = v
                return
            if base[0] == "state":
                return self.put(self.address(i, line), v, line)
            if base[0] == "matrix":
                raise Wrong("the gate matrix is overwritten", line)
        raise Unclear(f"line {line}: assignment")

    def put(self, w, v, line):
        """A write to the state."""
        if self.loop is None:
            raise Unclear(f"line {line}: write outside the loop")
        self.check_address(w, line)
        v = self.poly(v)
        for x in list(self.writes):
            d = differ(w, x)
            if d is None:
                raise Unclear(f"line {line}: addresses that may agree")
            if d is False:
                del self.writes[x]
        self.writes[w] = v
        self.write_line = line

    def arith(self, op, a, b, line):
        narrow = isinstance(a, Narrow) and (isinstance(b, Narrow) or op in ("<<", ">>"))
        a0, a, b = a, widen(a), widen(b)
        if isinstance(a, Scalar) or isinstance(b, Scalar):
            if op == "+":
                x = a if isinstance(a, Scalar) else b
                y = b if x is a else a
                if isinstance(y, Scalar):
                    return Scalar(x.terms + y.terms, x.total + y.total)
                if isinstance(y, Lin) and y.const == 0 or isinstance(y, Poly) and not y.d:
                    return x
            raise Unclear(f"line {line}: real arithmetic")
        if isinstance(a, Poly) or isinstance(b, Poly):
            a, b = self.poly(a), self.poly(b)
            if op == "+":
                return a + b
            if op == "-":
                return a + b.scaled(-1)
            if op == "*":
                return a * b
            if op == "/" and list(b.d) == [()]:
                return a.scaled(1 / b.d[()])
            raise Unclear(f"line {line}: {op} of amplitudes")
        r = self.integer(op, a, b, line)
        if narrow and op == "<<":
            x = self.as_lin(r)
            if x is None or x.const is None:
                raise Wrong("a 32-bit integer is shifted by a qubit's position, which overflows from position 31 on", line)
        if narrow and isinstance(r, Lin):
            return Narrow(r)
        return r

    def integer(self, op, a, b, line):
        la, lb = (a if isinstance(a, Lin) else None), (b if isinstance(b, Lin) else None)
        if op in ("+", "-") and la is not None and lb is not None:
            return la + lb if op == "+" else la - lb
        if op == "*" and la is not None and lb is not None and (la.const is not None or lb.const is not None):
            return la.times(lb.const) if lb.const is not None else lb.times(la.const)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return num(int(self.compare(op, a, b, line)))
        if op in ("<<", ">>"):
            s = self.as_lin(b)
            if s is None:
                raise Unclear(f"line {line}: shift by a word")
            if la is not None and la.const is not None and s.const is not None:
                return num(la.const << s.const if op == "<<" else la.const >> s.const)
            w = self.word(a, line)
            return shl(w, s) if op == "<<" else shr(w, s)
        if la is not None and lb is not None and la.const is not None and lb.const is not None:
            x, y = la.const, lb.const
            if op in "&|^":
                return num({"&": x & y, "|": x | y, "^": x ^ y}[op])
            if op in "/%" and y > 0 and x >= 0:
                return num(x // y if op == "/" else x % y)
        if op in ("&", "|", "^"):
            return bitop(op, self.word(a, line), self.word(b, line))
        if op == "+":
            return add_words(self.word(a, line), self.word(b, line))
        if op == "-":
            wa, wb = self.word(a, line), self.word(b, line)
            if wb == from_int(1) and single_bit(wa) is not None:
                return add_words(wa, negate(wb))
            if all(l == 0 or (k, s) == (l, t) for _, k, s, l, t in align(wa, wb)) and wa.top == wb.top == 0:
                return bitop("^", wa, wb)
            return add_words(wa, negate(wb))
        if op in ("*", "/", "%"):
            wa, wb = self.word(a, line), self.word(b, line)
            p = single_bit(wb)
            if p is not None and wa.top == 0:
                if op == "*":
                    return shl(wa, p)
                if op == "/":
                    return shr(wa, p)
                return bitop("&", wa, Word([(p, 1, None)], 0))
            p = single_bit(wa)
            if p is not None and op == "*" and wb.top == 0:
                return shl(wb, p)
        raise Unclear(f"line {line}: {op}")

    def compare(self, op, a, b, line):
        la, lb = self.as_lin(a), self.as_lin(b)
        if la is not None and lb is not None:
            if op in ("==", "!="):
                if la == lb:
                    return op == "=="
                if le(la + num(1), lb) is True or le(lb + num(1), la) is True:
                    return op == "!="
                raise Unclear(f"line {line}: comparison")
            if op == "<":
                return sure_le(la + num(1), lb)
            if op == "<=":
                return sure_le(la, lb)
            if op == ">":
                return sure_le(lb + num(1), la)
            return sure_le(lb, la)
        if op in ("==", "!="):
            d = differ(self.word(a, line), self.word(b, line))
            if d is not None:
                return d == (op == "!=")
        raise Unclear(f"line {line}: comparison of words")

    def builtin(self, e, env, line):
        f = e[1]
        if f[0] == "member":
            base = self.eval(f[1], env)
            if isinstance(base, tuple) and base[0] == "array" and f[2] in ("begin", "end", "size", "data"):
                return {"begin": ("ptr", base, num(0)), "data": ("ptr", base, num(0)), "end": ("ptr", base, num(len(base[1]))), "size": num(len(base[1]))}[f[2]]
            raise Unclear(f"line {line}: method {f[2]}")
        name = f[1]
        if name in self.funcs:
            params = self.funcs[name][3]
            args = []
            for (ty, p), x in zip(params, e[2]):
                if "&" in ty[1] and not self.is_pointerlike(x, env):
                    raise Unclear(f"line {line}: reference parameter")
                args.append(self.convert(ty, widen(self.eval(x, env)), line))
            if len(args) != len(e[2]) or len(args) != len(params):
                raise Unclear(f"line {line}: arguments")
            return self.call(name, args, line)
        short = name.split("::")[-1]
        if short == "swap" and len(e[2]) == 2:
            a, b = widen(self.eval(e[2][0], env)), widen(self.eval(e[2][1], env))
            self.assign(e[2][0], b, env, line)
            self.assign(e[2][1], a, env, line)
            return None
        args = [widen(self.eval(x, env)) for x in e[2]]
        if short == "sort" and len(args) == 2:
            p, q = [x if x[0] == "ptr" else ("ptr", x, num(0)) for x in args]
            if p[1] is not q[1] or p[2].const is None or q[2].const is None or p[1][0] != "array":
                raise Unclear(f"line {line}: sort")
            i, j = p[2].const, q[2].const
            if not 0 <= i <= j <= len(p[1][1]):
                raise Wrong("a range outside an array is sorted", line)
            items = p[1][1][i:j]
            out = []
            for x in items:
                x = self.as_lin(x)
                if x is None:
                    raise Unclear(f"line {line}: sort")
                k = 0
                while k < len(out) and sure_le(out[k], x):
                    k += 1
                out.insert(k, x)
            p[1][1][i:j] = out
            return None
        if short in ("begin", "end") and len(args) == 1 and args[0][0] == "array":
            return ("ptr", args[0], num(0 if short == "begin" else len(args[0][1])))
        if short in ("min", "max") and len(args) == 2 and all(isinstance(x, Lin) for x in args):
            a, b = args
            small = sure_le(a, b)
            return (a if small else b) if short == "min" else (b if small else a)
        if short == "norm" and len(args) == 1:
            return Scalar((self.poly(args[0]),))
        if short == "abs" and len(args) == 1 and isinstance(args[0], Poly):
            return Scalar((self.poly(args[0]) * sym(("absolute value",)),))
        raise Unclear(f"line {line}: call of {name}")

    def is_pointerlike(self, x, env):
        if x[0] != "name":
            return False
        v = self.lookup(x[1], env)
        return isinstance(v, tuple) and v[0] in ("array", "state", "matrix", "ptr")


class Narrow:
    """A value of type int."""
    def __init__(self, v):
        self.v = v


def widen(v):
    return v.v if isinstance(v, Narrow) else v


# ------------------------------------------------------------------ what a kernel does
def setting(order, little, gaps=None):
    """Qubit arguments and qubit count when positions increase in this order: {argument: linear form}, {argument: position}, n."""
    gap = (lambda i: Lin({i: 1})) if gaps is None else (lambda i: num(gaps[i]))
    pos, here = {}, num(0)
    for g, q in enumerate(order):
        here = here + gap(g)
        pos[q] = here
        here = here + num(1)
    n = here + gap(len(order))
    args = {q: (p if little else n - p - num(1)) for q, p in pos.items()}
    return args, pos, n


def pattern(w, order, pos, n, line):
    """The values of the affected bits in an address; the other bits must be the loop's."""
    out, here = {}, num(0)
    flat = []
    for m, k, s in w.pieces:
        flat.append((here, m, k))
        here = here + m
    for q in order:
        p = pos[q]
        bit = w.top
        for a, m, k in flat:
            if sure_le(a, p) and sure_le(p + num(1), a + m):
                bit = k
                break
            if sure_le(a + num(1), p + num(1)) is False and sure_le(p + num(1), a) is False:
                raise Unclear("address pieces")
        if bit == "x":
            raise Wrong("the loop runs over a bit of a qubit the gate acts on", line)
        out[q] = bit
    # the remaining bits below n: all loop bits, which check_address found to occur once each; count them
    return out


def refuted(funcs, name, roles, little, judge):
    """A violation at some particular number of qubits and positions, or None."""
    k = sum(r[0] == "qubit" for r in roles)
    tried = 0
    sizes = list(itertools.product((1, 0, 2), repeat=k + 1)) + [tuple(40 if i == j else 1 for j in range(k + 1)) for i in range(k + 1)]
    for gaps in sizes:
        try:
            judge(summarise(funcs, name, roles, little, gaps))
            tried += 1
        except Wrong as e:
            return Wrong(f"{e.msg} (with {sum(gaps) + k} qubits)", e.line)
        except Unclear:
            pass
    return None


def summarise(funcs, name, roles, little, gaps=None):
    """What the kernel does with arguments in these roles, the same for every ordering of the qubits.

    roles: one of ("n",), ("state",), ("matrix",), ("null",), ("factor",), ("qubit", key) per argument.
    -> ("update", {pattern: {(gate symbols..., source pattern): coefficient}}) or ("norm", [rows])"""
    f = funcs[name]
    qubits = [r[1] for r in roles if r[0] == "qubit"]
    if len(set(qubits)) != len(qubits):
        raise Unclear("a qubit is passed twice")
    line = f[5]
    first = None
    for order in itertools.permutations(qubits):
        args, pos, n = setting(order, little, gaps)
        vals = []
        for r in roles:
            vals.append({"n": n, "state": ("state",), "matrix": ("matrix",), "null": ("null",), "factor": sym(("factor",))}.get(r[0]) if r[0] != "qubit" else args[r[1]])
        run = Run(funcs, name, vals, order, n)
        if run.loops == 0:
            raise Unclear("no loop over the basis states")
        k = len(qubits)
        want = n - num(k)

        def pat(w):
            p = pattern(w, order, pos, n, line)
            return tuple(p[q] for q in qubits)

        def checked(w):
            if run_bits != want:
                raise Wrong(f"the loop runs over 2**({run_bits}) states instead of 2**(n - {k})", line)
            return pat(w)
        run_bits = run_loop_bits(run, want)
        lin = lambda v: {(tuple(x for x in m if x[0] != "amp"), tuple(checked(x[1]) for x in m if x[0] == "amp")): complex(round(complex(c).real, 9), round(complex(c).imag, 9)) for m, c in v.d.items()}
        if run.writes and isinstance(run.value, Scalar):
            raise Wrong("a norm kernel changes the state", line)
        if isinstance(run.value, Scalar):
            if run.value.terms:
                raise Unclear("value of one iteration")
            rows = sorted((sorted(lin(t).items()) for t in run.value.total if t.d), key=repr)
            out = ("norm", rows)
        else:
            out = ("update", {checked(w): lin(v) for w, v in run.writes.items()})
        if first is None:
            first = out
        elif first != out:
            raise Wrong("the result depends on the order of the qubit arguments", line)
    return first


def run_loop_bits(run, want):
    """The number of loop bits, recovered from the addresses used."""
    for w in list(run.writes) + run.reads:
        total = num(0)
        for n, k, _ in w.pieces:
            if k == "x":
                total = total + n
        return total
    return want


def identity_row(p):
    return {((), (p,)): 1 + 0j}


def controlled(updates, qubits, targets, entry):
    """Whether the updates are those of a gate with these targets (most significant first), the others being controls."""
    size = 2 ** len(targets)
    for p in itertools.product((0, 1), repeat=len(qubits)):
        got = updates.get(p, identity_row(p))
        bits = dict(zip(qubits, p))
        if not all(bits[q] for q in qubits if q not in targets):
            want = identity_row(p)
        else:
            row = sum(bits[t] << (len(targets) - 1 - j) for j, t in enumerate(targets))
            want = {}
            for col in range(size):
                src = dict(bits)
                src.update({t: (col >> (len(targets) - 1 - j)) & 1 for j, t in enumerate(targets)})
                key, c = entry(row, col, size)
                if c:
                    want[(key, (tuple(src[q] for q in qubits),))] = c
        if got != want:
            return False
    return True


def gate_entry(row, col, size):
    return (("gate", row * size + col),), 1 + 0j


def swap_entry(row, col, size):
    return (), (1 + 0j if {0: 0, 1: 2, 2: 1, 3: 3}[row] == col else 0)


def classify(updates, qubits):
    """("gate" or "swap", targets, controls) the updates are those of; None if of neither."""
    for k in (1, 2):
        for ts in itertools.permutations(qubits, k):
            if controlled(updates, qubits, ts, gate_entry):
                return "gate", ts, tuple(q for q in qubits if q not in ts)
    for ts in itertools.combinations(qubits, 2):
        if controlled(updates, qubits, ts, swap_entry):
            return "swap", ts, tuple(q for q in qubits if q not in ts)
    return None


def describe(updates):
    def row(v):
        return " + ".join(f"{'' if c == 1 else format(c.real, 'g') + '*' if not c.imag else str(c) + '*'}{''.join(('m[%s]*' % (s[1],)) if s[0] == 'gate' else s[0] + '*' for s in g)}a{''.join(map(str, a[0])) if a else '?'}"
                          for (g, a), c in sorted(v.items(), key=repr)) or "0"
    return "; ".join(f"a{''.join(map(str, p))} := {row(v)}" for p, v in sorted(updates.items()))
