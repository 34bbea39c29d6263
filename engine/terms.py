"""Value numbers: immutable, canonical terms.

A term is an operator and arguments. Arithmetic over +, - and integer factors is kept in a linear
normal form, string concatenation and sequences in segment normal form, and generic loop elements
use height-indexed bound variables, so that equal values computed differently get equal terms.
"""
from __future__ import annotations
from fractions import Fraction
from math import gcd


class Term:
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._h = hash((op, args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        return isinstance(o, Term) and self._h == o._h and self.op == o.op and self.args == o.args

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


class Ref:
    """Reference to an abstract heap object."""
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    def __hash__(self):
        return hash(("ref", self.oid))

    def __eq__(self, o):
        return isinstance(o, Ref) and o.oid == self.oid

    def __repr__(self):
        return f"&{self.oid}"


_intern: dict = {}


def T(op, *args):
    t = Term(op, args)
    r = _intern.get(t)
    if r is None:
        _intern[t] = r = t
    return r


class _K:
    """Wrapper distinguishing 1, 1.0 and True."""
    __slots__ = ("v", "k")

    def __init__(self, v):
        self.v = v
        self.k = (type(v).__name__, repr(v) if isinstance(v, (float, complex)) else v)

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, _K) and self.k == o.k

    def __repr__(self):
        return repr(self.v)


def const(v):
    return T("const", _K(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return isinstance(t, Term) and t.op == "const"


def cval(t):
    return t.args[0].v


def is_num_const(t):
    return is_const(t) and isinstance(cval(t), (int, float, complex, Fraction)) and not isinstance(cval(t), bool)


def is_int_const(t):
    return is_const(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool)


def is_str_const(t):
    return is_const(t) and isinstance(cval(t), str)


def sym(name):
    return T("sym", name)


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, Term):
        return getattr(t, "name", None) or repr(t)
    if depth > 12:
        return "…"
    d = depth + 1
    o, a = t.op, t.args
    if o == "const":
        return repr(a[0].v)
    if o == "sym":
        return str(a[0])
    if o == "bv":
        return f"i{a[0]}"
    if o == "fld":
        return f"{show(a[0], d)}.{a[1]}" + (f"@{a[2]}" if len(a) > 2 and a[2] else "")
    if o == "at":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if o == "lin":
        s = " + ".join((f"{c}*" if c != 1 else "") + show(x, d) for x, c in a[0])
        return f"({s}{' + ' + str(a[1]) if a[1] else ''})"
    if o == "one":
        return show(a[0], d)
    if o == "splice":
        return "*" + show(a[0], d)
    if o == "seq":
        return "<" + ", ".join(show(x, d) for x in a) + ">"
    if o == "tuple":
        return "tuple" + show(a[0], d)
    if o == "many":
        return f"[{show(a[2], d)} for i{a[0]}<{show(a[1], d)}]"
    if o == "ite":
        return f"({show(a[0], d)} ? {show(a[1], d)} : {show(a[2], d)})"
    if o == "leaf":
        return "{" + ", ".join(show(x, d) for x in a) + "}"
    return f"{o}(" + ", ".join(show(x, d) if isinstance(x, (Term, Ref)) else (getattr(x, "name", None) or str(x)) for x in a) + ")"


# ---------------------------------------------------------------- generic traversal
def subst(t, m):
    """Replaces sub-terms (m: term -> term), rebuilding with the smart constructors."""
    if not m:
        return t
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, (Term, Ref)):
            return x
        if x in m:
            return m[x]
        if not isinstance(x, Term) or not x.args:
            return x
        r = memo.get(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            r = x if all(p is q for p, q in zip(na, x.args)) else rebuild(x.op, na)
            memo[x] = r
        return r

    return go(t)


def contains_any(t, pred):
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if not isinstance(x, (Term, Ref)):
            return False
        if x in seen:
            return False
        seen.add(x)
        if pred(x):
            return True
        return isinstance(x, Term) and any(go(y) for y in x.args)

    return go(t)


def occurs(t, s):
    return contains_any(t, lambda x: x == s)


def subterms(t):
    out = []
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, (Term, Ref)) or x in seen:
            return
        seen.add(x)
        out.append(x)
        if isinstance(x, Term):
            for y in x.args:
                go(y)

    go(t)
    return out


def rebuild(op, args):
    if op == "lin":
        r = const(args[1])
        for x, c in args[0]:
            r = add(r, scale(x, c))
        return r
    if op == "seq":
        return seq(args)
    if op == "cat":
        return cat(args)
    if op == "at":
        return at(args[0], args[1])
    if op == "len":
        return seqlen(args[0])
    if op == "many":
        return many_raw(args[0], args[1], args[2])
    if op == "get":
        return dict_get(args[0], args[1])
    if op == "ite":
        return ite(*args)
    if op == "mul":
        return mul(*args)
    if op == "conj":
        return conj(args[0])
    if op == "cmp":
        return cmp_atom(args[0], args[1], args[2]) if False else T(op, *args)
    return T(op, *args)


# ---------------------------------------------------------------- arithmetic
def _lin(t):
    """-> (dict term->coeff, const) ; coefficients are int/float/complex/Fraction."""
    if is_num_const(t):
        return {}, cval(t)
    if is_const(t) and isinstance(cval(t), bool):
        return {}, int(cval(t))
    if isinstance(t, Term) and t.op == "lin":
        return dict(t.args[0]), t.args[1]
    return {t: 1}, 0


def _mk(d, c):
    items = tuple(sorted(((x, k) for x, k in d.items() if k != 0), key=lambda p: skey(p[0])))
    if not items:
        return const(c)
    if len(items) == 1 and items[0][1] == 1 and c == 0:
        return items[0][0]
    return T("lin", items, c)


def skey(t):
    """Total, deterministic order on terms."""
    return show_full(t)


_sf: dict = {}


def show_full(t):
    if isinstance(t, Term):
        r = _sf.get(t)
        if r is None:
            r = t.op + "(" + ",".join(show_full(x) for x in t.args) + ")"
            _sf[t] = r
        return r
    if isinstance(t, tuple):
        return "(" + ",".join(show_full(x) for x in t) + ")"
    return getattr(t, "name", None) or repr(t)


def add(a, b):
    d, c = _lin(a)
    e, f = _lin(b)
    for x, k in e.items():
        d[x] = d.get(x, 0) + k
    return _mk(d, c + f)


def scale(a, k):
    d, c = _lin(a)
    return _mk({x: v * k for x, v in d.items()}, c * k)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_num_const(a):
        return scale(b, cval(a))
    if is_num_const(b):
        return scale(a, cval(b))
    x, y = sorted((a, b), key=skey)
    return T("mul", x, y)


def conj(a):
    if is_num_const(a):
        v = cval(a)
        return const(v.conjugate()) if isinstance(v, complex) else a
    if isinstance(a, Term) and a.op == "conj":
        return a.args[0]
    return T("conj", a)


def linparts(t):
    return _lin(t)


# ---------------------------------------------------------------- strings
def cat(parts):
    out = []

    def push(p):
        if isinstance(p, Term) and p.op == "cat":
            for q in p.args:
                push(q)
        elif is_str_const(p):
            if cval(p) == "":
                return
            if out and is_str_const(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(p))
            else:
                out.append(p)
        else:
            out.append(p)

    for p in parts:
        push(p)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0]
    return T("cat", *out)


def join(sep, s):
    """sep.join(seq)"""
    segs = s.args
    if not segs:
        return const("")
    if all(x.op == "one" for x in segs):
        parts = []
        for i, x in enumerate(segs):
            if i:
                parts.append(sep)
            parts.append(x.args[0])
        return cat(parts)
    if is_str_const(sep) and cval(sep) == "":
        # concatenation is segment-wise
        parts = []
        for x in segs:
            parts.append(x.args[0] if x.op == "one" else T("fold", T("seq", x)))
        return cat(parts)
    return T("join", sep, s)


# ---------------------------------------------------------------- sequences
# segment := one(v) | splice(S) | many(h, n, tree)
# tree    := leaf(seg, ...) | ite(literal, tree, tree)
def one(v):
    return T("one", v)


def seq(segs):
    out = []
    for s in segs:
        if s.op == "seq":
            out.extend(s.args)
        elif s.op == "splice" and isinstance(s.args[0], Term) and s.args[0].op == "seq":
            out.extend(s.args[0].args)
        elif s.op == "many" and is_int_const(s.args[1]) and cval(s.args[1]) <= 0:
            continue
        else:
            out.append(s)
    return T("seq", *out)


EMPTY = T("seq")


def splice(S):
    if isinstance(S, Term) and S.op == "tuple":
        return S.args[0]
    return T("splice", S)


def leaf(segs):
    return T("leaf", *seq(segs).args)


def ite(lit, a, b):
    if a == b:
        return a
    return T("ite", lit, a, b)


def height(t):
    h = 0
    for x in subterms(t):
        if isinstance(x, Term) and x.op in ("many", "forall", "exists", "first", "foldn", "sum"):
            if isinstance(x.args[0], int):
                h = max(h, x.args[0])
    return h


def bv(h):
    return T("bv", h)


def many(k, n, tree):
    """Binds the loop index symbol k in tree."""
    h = height(tree) + 1
    return many_raw(h, n, subst(tree, {k: bv(h)}))


def many_raw(h, n, tree):
    # canonical: [S[i] for i < len(S)] is a splice of S
    if tree.op == "leaf":
        if not tree.args:
            return T("many", h, const(0), tree)
        if len(tree.args) == 1 and tree.args[0].op == "one":
            v = tree.args[0].args[0]
            if isinstance(v, Term) and v.op == "at" and v.args[1] == bv(h) and not occurs(v.args[0], bv(h)):
                S = v.args[0]
                if n == seqlen(S):
                    return splice(S) if not (isinstance(S, Term) and S.op == "seq") else T("splice", S)
    return T("many", h, n, tree)


def seqlen(S):
    if isinstance(S, Term) and S.op == "seq":
        return length(S)
    if isinstance(S, Term) and S.op == "tuple":
        return length(S.args[0])
    if isinstance(S, Term) and S.op == "slice":      # 0 <= lo <= hi <= len
        return sub(S.args[2], S.args[1])
    if isinstance(S, Term) and S.op == "vals":       # a dictionary has as many values as keys
        S = T("keys", *S.args)
    return T("len", S)


def tree_leaf_lengths(t):
    if t.op == "leaf":
        return [length(T("seq", *t.args))]
    return tree_leaf_lengths(t.args[1]) + tree_leaf_lengths(t.args[2])


def length(s):
    n = const(0)
    for x in s.args:
        if x.op == "one":
            n = add(n, const(1))
        elif x.op == "splice":
            n = add(n, seqlen(x.args[0]))
        else:
            ls = tree_leaf_lengths(x.args[2])
            if all(is_int_const(l) and l == ls[0] for l in ls):
                n = add(n, scale(x.args[1], cval(ls[0])))
            else:
                n = add(n, T("len", T("seq", x)))
    return n


def at(S, i):
    """Element i of a sequence term (a seq, a tuple or an opaque sequence)."""
    if isinstance(S, Term) and S.op == "tuple":
        S = S.args[0]
    if isinstance(S, Term) and S.op in ("slice", "slicex") and not (is_int_const(i) and cval(i) < 0):
        return at(S.args[0], add(S.args[1], i))
    if isinstance(S, Term) and S.op == "seq":
        segs = S.args
        if len(segs) == 1:
            x = segs[0]
            if x.op == "splice":
                return at(x.args[0], i)
            if x.op == "many" and x.args[2].op == "leaf" and len(x.args[2].args) == 1 and x.args[2].args[0].op == "one":
                if not (is_int_const(i) and cval(i) < 0):
                    return subst(x.args[2].args[0].args[0], {bv(x.args[0]): i})
        if is_int_const(i):
            k = cval(i)
            if k >= 0:
                for x in segs:
                    if x.op != "one":
                        break
                    if k == 0:
                        return x.args[0]
                    k -= 1
            else:
                k = -k - 1
                for x in reversed(segs):
                    if x.op != "one":
                        break
                    if k == 0:
                        return x.args[0]
                    k -= 1
        # i symbolic but pointing behind a prefix of known length
        off = const(0)
        for j, x in enumerate(segs):
            if x.op == "one":
                if off == i:
                    return x.args[0]
                off = add(off, const(1))
            else:
                off = add(off, length(T("seq", x)))
    return T("at", S, i)


# ---------------------------------------------------------------- dictionaries
# dict(entry...) ; entry := one(pair(k, v)) | splice(D) | many(h, n, tree of pairs)
def pair(k, v):
    return T("pair", k, v)


def dict_get(d, k):
    if d.op == "dict":
        segs = d.args
        for x in reversed(segs):
            if x.op == "one":
                if x.args[0].args[0] == k:
                    return x.args[0].args[1]
                if not distinct(x.args[0].args[0], k):
                    return T("get", d, k)
            elif x.op == "many":
                tr = x.args[2]
                if tr.op == "leaf" and len(tr.args) == 1 and tr.args[0].op == "one":
                    kk, vv = tr.args[0].args[0].args
                    h = bv(x.args[0])
                    if isinstance(kk, Term) and kk.op == "at" and kk.args[1] == h and isinstance(k, Term) and k.op == "at" and k.args[0] == kk.args[0]:
                        return subst(vv, {h: k.args[1]})
                return T("get", d, k)
            elif x.op == "splice":
                if len(segs) == 1:
                    D = x.args[0]
                    if isinstance(k, Term) and k.op == "at" and k.args[0] == T("keys", D):
                        return at(T("vals", D), k.args[1])
                    return T("get", D, k)
                return T("get", d, k)
        return T("get", d, k)
    return T("get", d, k)


def distinct(a, b):
    """Certainly different values."""
    if is_const(a) and is_const(b):
        try:
            return not (cval(a) == cval(b))
        except Exception:
            return False
    return False
