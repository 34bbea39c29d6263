"""Comparison of two abstract values under the facts of the current path."""
from __future__ import annotations
from .terms import *
from .values import *
from .interp import *
from .objects import *
from .natives import *


class CheckFail(Exception):
    def __init__(self, msg, where=None):
        super().__init__(msg)
        self.msg, self.where = msg, where


class Undecided(Exception):
    pass


SIMPLE = {"const", "sym", "fld", "at", "lin", "cat", "tuple", "list", "obj", "ntup", "enum", "dcopy", "seq", "keys", "vals",
          "items", "dict", "len", "index", "get", "typeof", "fldu", "pi", "setv", "new", "perit", "uid", "str", "repr", "newid", "kcall", "kernel", "project", "power", "weight"}
NESTED = {"ext", "vcall", "vprop", "ures", "ucall", "obj", "pair", "kwt", "after", "outcome", "aget", "aset", "named", "slice", "slicex",
          "str", "repr", "fmt", "hash", "conj", "mul", "get", "fld", "at", "tuple", "list", "len", "index", "dcopy", "call", "clsname"}


def simple(t):
    """Terms whose syntactic difference is a difference of values in some state."""
    if not isinstance(t, Term):
        return True
    return all((not isinstance(x, Term)) or x.op in SIMPLE or x.op in ("one", "splice")
               or x.op in ("imod", "minint", "floordiv") and any(is_const(y) for y in x.args)
               or x.op in ("leaf", "bv") or x.op == "many" and x.args[2].op == "leaf" for x in subterms(t))


def drawn(t):
    """The outcome of measuring known qubits of a known state."""
    return t.op == "outcome" and t.args[1].op == "amp" and t.args[0].op == "measure" and all(is_int_const(s.args[0]) for s in t.args[0].args[3].args[0].args)


class Compare:
    def __init__(self, I, strict=False):
        self.I, self.bij, self.strict, self.depth = I, {}, strict, 0

    def fail(self, a, b, why=""):
        raise CheckFail(f"{why + ': ' if why else ''}{short(a)} instead of {short(b)}")

    def same(self, a, b):
        I = self.I
        if a is b or (type(a) is type(b) and a == b and not isinstance(a, Ref)):
            return
        self.depth += 1
        if self.depth > 200:
            raise Undecided("comparison too deep")
        try:
            self._same(a, b)
        finally:
            self.depth -= 1

    def _same(self, a, b):
        I = self.I
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return
            ha, hb = I.st.heap[a], I.st.heap[b]
            if ha.kind != hb.kind:
                self.fail(a, b, f"{ha.kind} and {hb.kind}")
            if ha.kind in ("list", "dict", "set", "array", "iter"):
                return self.content(I.st.cont[a], I.st.cont[b])
            return self.insts(a, b)
        if isinstance(a, Named) or isinstance(b, Named):
            if isinstance(a, RangeV) or isinstance(b, RangeV):
                return self.seqs(I.items(a), I.items(b))
            if isinstance(a, BoundV) and isinstance(b, BoundV) and a.func == b.func:
                return self.same(a.obj, b.obj)
            if a == b:
                return
            if isinstance(a, ExcV) and isinstance(b, ExcV) and a.cls == b.cls:
                return
            self.fail(a, b)
        ta, tb = I.typ(a), I.typ(b)
        if ta[0] in ("opt",) or tb[0] == "opt" or ta == ANY or tb == ANY:
            if a is NONE or b is NONE:
                x = b if a is NONE else a
                if not I.branch(I.is_(x, NONE)):
                    self.fail(a, b)
                return
        if ta[0] == "none" or tb[0] == "none":
            if ta[0] != tb[0]:
                self.fail(a, b)
            return
        seqs = ("list", "tuple", "seq", "set")
        if ta[0] in seqs and tb[0] in seqs:
            if (ta[0] == "tuple") != (tb[0] == "tuple") and "seq" not in (ta[0], tb[0]):
                self.fail(a, b, f"{ta[0]} and {tb[0]}")
            return self.seqs(I.items(a), I.items(b))
        if ta[0] == "dict" and tb[0] == "dict":
            return self.content(I.content(a), I.content(b))
        if ta[0] == "inst" and tb[0] == "inst":
            if isinstance(a, Ref) or isinstance(b, Ref):
                if I.is_register(a) and I.is_register(b):
                    return self.insts(a, b)
                oa = isinstance(a, Ref) or a.op in ("obj", "ntup")
                ob = isinstance(b, Ref) or b.op in ("obj", "ntup")
                if oa and ob:
                    return self.insts(a, b)
                self.fail(a, b, "a new object")
            if a.op == "ntup" and b.op == "ntup":
                return self.seqs(a.args[1], b.args[1])
            if a.op == "obj" and b.op == "obj":
                return self.insts(a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            sa, sb = I.snap(a), I.snap(b)
            if isinstance(sa, Ref) or isinstance(sb, Ref):
                self.fail(a, b)
            return self.terms(sa, sb)
        return self.terms(a, b)

    def insts(self, a, b):
        I = self.I
        if a in self.bij:
            if self.bij[a] != b:
                self.fail(a, b, "a different object")
            return
        ca, cb = I.class_of(a), I.class_of(b)
        if ca != cb:
            self.same(ca, cb)
        self.bij[a] = b
        fa, fb = self.fields(a), self.fields(b)
        for f in sorted(set(fa) | set(fb)):
            if f not in fa or f not in fb:
                continue
            self.same(fa[f], fb[f])
        if I.is_register(a):
            self.seqs(I.content(a), I.content(b))

    def fields(self, a):
        I = self.I
        if isinstance(a, Term) and a.op == "obj":
            return {f: v for f, v in a.args[1] if f != "$items"}
        cached = set()
        return {f: v for (o, f), v in I.st.fields.items() if o == a and v is not DELETED and not I.is_cache_field(a, f)}

    def content(self, x, y):
        if x == y:
            return
        if isinstance(x, Term) and isinstance(y, Term) and x.op == "dict" and y.op == "dict":
            return self.seqs(self.dict_seq(x), self.dict_seq(y))
        if isinstance(x, Term) and isinstance(y, Term) and x.op == "seq" and y.op == "seq":
            return self.seqs(x, y)
        if isinstance(x, Term) and isinstance(y, Term):
            return self.terms(x, y)
        self.same(x, y)

    def dict_seq(self, d):
        d = self.I.norm_dict(d)
        out = []
        for s in d.args:
            if s.op == "splice":
                D = s.args[0]
                k = self.I.fresh("k", INT)
                out.append(many(k, T("len", T("keys", D)), leaf([one(pair(at(T("keys", D), k), at(T("vals", D), k)))])))
            elif s.op in ("one", "many"):
                out.append(s)
            else:
                raise Undecided("dictionary with removed keys")
        return seq(out)

    # ------------------------------------------------------------ sequences
    def plain_len(self, S):
        return not contains_any(length(S), lambda x: isinstance(x, Term) and x.op in ("many", "foldn", "sum"))

    def seqs(self, A, B):
        I = self.I
        if A == B:
            return
        A, B = I.expand(A), I.expand(B)
        xs, ys = list(A.args), list(B.args)
        if self.plain_len(A) and self.plain_len(B):
            lit = I.rel_eq(length(A), length(B))
            if not I.branch(lit):
                raise CheckFail(f"{show(length(A))} elements instead of {show(length(B))} ({short(A)} / {short(B)})")
            A, B = I.expand(A), I.expand(B)
            xs, ys = list(A.args), list(B.args)
        while xs or ys:
            xs = self.drop_empty(xs)
            ys = self.drop_empty(ys)
            if not xs or not ys:
                rest = xs or ys
                if not rest:
                    return
                if any(s.op == "one" for s in rest):
                    raise CheckFail(f"{'extra' if xs else 'missing'} elements {short(T('seq', *rest))}")
                self.must_be_empty(rest, bool(xs))
                return
            x, y = xs[0], ys[0]
            if x == y:
                xs.pop(0)
                ys.pop(0)
                continue
            if x.op == "one" and y.op == "one":
                self.same(x.args[0], y.args[0])
                xs.pop(0)
                ys.pop(0)
                continue
            if x.op != "one" and y.op != "one":
                nx, ny = self.count(x), self.count(y)
                d = I.decide_lit(I.rel_eq(nx, ny))
                if d is None and len(xs) == 1 and len(ys) == 1:
                    if simple(nx) and simple(ny) and self.unit(x) and self.unit(y):
                        if not I.branch(I.rel_eq(nx, ny)):
                            raise CheckFail(f"{show(nx)} elements instead of {show(ny)}")
                        d = True
                if d is True:
                    k = I.fresh("k", INT)
                    c = I.const_len(nx)
                    if c == 0:
                        xs.pop(0)
                        ys.pop(0)
                        continue
                    if not I.branch(I.rel(const(1), "<=", nx)):
                        xs.pop(0)
                        ys.pop(0)
                        continue
                    I.assume(I.rel(const(0), "<=", k), True)
                    I.assume(I.rel(k, "<", nx), True)
                    self.seqs(self.elem_at(x, k), self.elem_at(y, k))
                    xs.pop(0)
                    ys.pop(0)
                    continue
            # peel one round off a summarised segment next to a single element
            s, other = (x, ys) if x.op != "one" else (y, xs)
            n = self.count(s)
            if I.branch(I.rel(n, "<=", const(0))):
                (xs if s is x else ys).pop(0)
                continue
            lo, hi = I.bounds(n)
            if hi is not None and hi <= 16:
                for v in range(1, hi):
                    if I.branch(I.rel_eq(n, const(v))):
                        break
                (xs if s is x else ys)[:] = list(I.expand(T("seq", *(xs if s is x else ys))).args)
                if (xs if s is x else ys)[0] == s:
                    raise Undecided("alignment of sequences")
                continue
            raise Undecided(f"alignment of {short(T('seq', *xs))} with {short(T('seq', *ys))}")

    def unit(self, s):
        """One element per round."""
        if s.op == "splice":
            return True
        return all(len(l) == 1 and l[0].op == "one" for l in self.leaves(s.args[2]))

    def leaves(self, t):
        if t.op == "leaf":
            return [t.args]
        return self.leaves(t.args[1]) + self.leaves(t.args[2])

    def count(self, s):
        return seqlen(s.args[0]) if s.op == "splice" else s.args[1]

    def drop_empty(self, xs):
        I = self.I
        while xs:
            s = xs[0]
            if s.op != "one" and I.decide_lit(I.rel(self.count(s), "<=", const(0))) is True:
                xs = xs[1:]
                continue
            if s.op == "many" and s.args[2] == leaf([]):
                xs = xs[1:]
                continue
            break
        return xs

    def must_be_empty(self, rest, extra):
        I = self.I
        for s in rest:
            n = self.count(s)
            if not I.branch(I.rel(const(1), "<=", n)):
                continue
            k = I.fresh("k", INT)
            I.assume(I.rel(const(0), "<=", k), True)
            I.assume(I.rel(k, "<", n), True)
            for e in self.elem_at(s, k).args:
                if e.op == "one":
                    raise CheckFail(f"{'extra' if extra else 'missing'} elements {short(s)}")
                self.must_be_empty([e], extra)

    def elem_at(self, s, k):
        if s.op == "splice":
            return seq([one(at(s.args[0], k))])
        t = subst(s.args[2], {bv(s.args[0]): k})
        while t.op == "ite":
            t = t.args[1] if self.I.branch(t.args[0]) else t.args[2]
        return seq(t.args)

    # ------------------------------------------------------------ terms
    def terms(self, a, b):
        I = self.I
        if a == b:
            return
        ta, tb = I.typ(a), I.typ(b)
        if I.is_num(a) and I.is_num(b):
            if (is_const(a) and isinstance(cval(a), bool)) != (is_const(b) and isinstance(cval(b), bool)) and is_const(a) and is_const(b):
                self.fail(a, b)
            lit = I.rel_eq(a, b)
            d = I.decide_lit(lit)
            if d is True:
                return
            if d is False or (simple(a) and simple(b)):
                if not I.branch(lit):
                    self.fail(a, b)
                return
        if a.op in ("cat", "join", "fold") or b.op in ("cat", "join", "fold") or (is_str_const(a) and is_str_const(b)):
            return self.strings(a, b)
        if a.op == "foldn" and b.op == "foldn":
            return self.folds(a, b)
        if a.op == b.op and a.op in ("seq",):
            return self.seqs(a, b)
        if a.op == b.op and a.op == "list" or a.op == b.op == "tuple" or a.op == b.op == "setv":
            return self.seqs(a.args[0], b.args[0])
        if a.op == b.op == "dict":
            return self.content(a, b)
        if a.op == b.op == "outcome" and drawn(a) and drawn(b):
            # outcomes of different measurements, or of measurements of different states, differ in some run
            self.fail(a, b)
        if drawn(a) and is_int_const(b) or drawn(b) and is_int_const(a):
            # the outcome of a measurement the path knows nothing about is the other one in some run
            self.fail(a, b)
        if a.op == b.op == "llref" and a.args[0] == b.args[0]:
            return self.same(a.args[1], b.args[1])
        if "llref" in (a.op, b.op) and (a.op == b.op or simple(b if a.op == "llref" else a)):
            self.fail(a, b)
        if a.op == b.op and a.op in NESTED and len(a.args) == len(b.args):
            if a.op in ("fld", "get", "at") and simple(a) and simple(b):
                return self.leafcmp(a, b)
            for x, y in zip(a.args, b.args):
                self.arg(x, y, a, b)
            return
        if a.op == "ext" and b.op != "ext" and b.op in SIMPLE or b.op == "ext" and a.op in SIMPLE:
            if self.strict:
                self.fail(a, b)
            raise Undecided(f"{short(a)} / {short(b)}")
        return self.leafcmp(a, b)

    def arg(self, x, y, a, b):
        if x is y or x == y:
            return
        if isinstance(x, tuple) and isinstance(y, tuple):
            if len(x) != len(y):
                self.fail(a, b)
            for p, q in zip(x, y):
                self.arg(p, q, a, b)
            return
        if isinstance(x, (Term, Ref, Named)) and isinstance(y, (Term, Ref, Named)):
            return self.same(x, y)
        if a.op == "ext" and not self.strict and isinstance(x, str):
            raise Undecided(f"{x} instead of {y}")
        self.fail(a, b)

    def leafcmp(self, a, b):
        I = self.I
        if simple(a) and simple(b) or self.strict:
            lit = I.eq(a, b)
            if not I.branch(lit):
                self.fail(a, b)
            return
        d = I.decide_lit(I.eq(a, b))
        if d is True:
            return
        if d is False and is_const(a) and is_const(b):
            self.fail(a, b)
        raise Undecided(f"{short(a)} / {short(b)}")

    def folds(self, a, b):
        I = self.I
        self.same(a.args[1], b.args[1])
        self.same(a.args[2], b.args[2])
        n = a.args[1]
        k, acc = I.fresh("k", INT), I.fresh("acc", I.typ(a.args[2]) if not isinstance(a.args[2], tuple) else ANY)
        I.assume(I.rel(const(0), "<=", k), True)
        I.assume(I.rel(k, "<", n), True)

        def inst(t):
            t2 = subst(t.args[3], {bv(t.args[0]): k, T("acc", t.args[0]): acc})
            while t2.op == "ite":
                t2 = t2.args[1] if I.branch(t2.args[0]) else t2.args[2]
            return seq(t2.args)
        self.seqs(inst(a), inst(b))

    # ------------------------------------------------------------ strings
    def parts(self, t):
        return list(t.args) if t.op == "cat" else [] if is_str_const(t) and cval(t) == "" else [t]

    def strings(self, a, b):
        I = self.I
        xs, ys = self.parts(a), self.parts(b)
        while xs and ys:
            x, y = xs.pop(0), ys.pop(0)
            if x == y:
                continue
            if is_str_const(x) and is_str_const(y):
                p, q = cval(x), cval(y)
                n = min(len(p), len(q))
                if p[:n] != q[:n]:
                    self.fail(a, b, "text")
                if p[n:]:
                    xs.insert(0, const(p[n:]))
                if q[n:]:
                    ys.insert(0, const(q[n:]))
                continue
            if x.op == "join" and y.op == "join":
                self.same(x.args[0], y.args[0])
                self.seqs(x.args[1], y.args[1])
                continue
            if x.op == "fold" and y.op == "fold":
                self.seqs(x.args[0], y.args[0])
                continue
            ok = ("const", "str", "repr", "sym", "fld", "at", "lin", "fmt", "len", "index", "get", "clsname", "lower", "upper")
            if (is_str_const(x) and y.op in ("str", "fmt")) or (is_str_const(y) and x.op in ("str", "fmt")):
                self.fail(a, b, "text")
            if x.op in ok and y.op in ok and not is_str_const(x) and not is_str_const(y):
                if x.op == y.op and x.op in ("str", "repr"):
                    self.same(x.args[0], y.args[0])
                    continue
                self.terms(x, y) if {x.op, y.op} & {"fld", "sym", "at"} else self.fail(a, b, "text")
                continue
            if is_str_const(x) or is_str_const(y):
                o = y if is_str_const(x) else x
                if o.op in ("fold", "join"):
                    raise Undecided(f"text {short(a)} / {short(b)}")
                self.fail(a, b, "text")
            raise Undecided(f"text {short(a)} / {short(b)}")
        rest = xs or ys
        if rest:
            if all(p.op in ("fold", "join") for p in rest):
                raise Undecided(f"text {short(a)} / {short(b)}")
            self.fail(a, b, "text")


def short(t, n=300):
    s = show(t) if isinstance(t, (Term, Ref)) else str(t)
    return s if len(s) <= n else s[:n] + "…"
