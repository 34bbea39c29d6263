"""Containers, built-in functions and external libraries as value numbers."""
from __future__ import annotations
import ast
import builtins
import math
from fractions import Fraction
from .terms import *
from .values import *
from .interp import *
from .objects import *
from .objects import Objects, RangeV, ClassDict, InstDict, Virtual, DELETED, exists_lit, first_of


class LazyV(Named):
    """map, filter, chain, enumerate, zip, reversed over something that is iterated on demand."""

    def __init__(self, kind, *args):
        self.kind, self.args, self.name = kind, args, f"lazy {kind}"


class IterV(Named):
    """Iterator over a sequence, with its position in the state."""

    def __init__(self, ref):
        self.ref, self.name = ref, "iterator"


class CountV(Named):
    """itertools.count"""

    def __init__(self, ref, step):
        self.ref, self.step, self.name = ref, step, "counter"


# attributes of numpy arrays
NDARRAY = frozenset("""T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data device
    diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize mT max mean min nbytes ndim newbyteorder nonzero
    partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum
    swapaxes take to_device tobytes tofile tolist tostring trace transpose var view""".split())


class EnumV(Named):
    """A combinatorial enumeration of letters that differ from each other, at some position."""

    def __init__(self, kind, letters, r, ref):
        self.kind, self.letters, self.r, self.ref, self.name = kind, letters, r, ref, "enumeration"


class ViewV(Named):
    def __init__(self, kind, d):
        self.kind, self.d, self.name = kind, d, f"dict {kind}"


PATHS = {
    "np": "numpy",
}

PURE_ROOTS = ("numpy", "math", "cmath", "itertools", "operator", "functools", "copy", "re", "typing", "abc", "inspect",
              "collections", "numbers", "random", "string", "builtins", "contextlib", "enum", "dataclasses", "types")

NP_ALIAS = {
    "numpy.matmul": "@", "numpy.dot": "@", "numpy.conjugate": "numpy.conj", "numpy.absolute": "numpy.abs",
    "numpy.identity": "numpy.eye", "numpy.complex128": "complex", "numpy.complex_": "complex", "numpy.cdouble": "complex",
    "numpy.float64": "float", "numpy.asarray": "numpy.array",
}


def all_single(t):
    if t.op == "ite":
        return all_single(t.args[1]) and all_single(t.args[2])
    return len(t.args) == 1 and t.args[0].op == "one"


class Natives(Objects):
    opaque_modules = ("dwave.gate.simulator.ops", "dwave.gate.simulator.cops", "dwave.gate.mixedproperty")
    native_classes = {"cyRegister"}

    def __init__(self):
        super().__init__()
        self.natives = {}
        for n in dir(self):
            if n.startswith("n_"):
                self.natives[n[2:].replace("__dot__", ".").replace("_DOT_", ".")] = getattr(self, n)
        for kind, ms in METHODS.items():
            for m in ms:
                self.natives[f"{kind}.{m}"] = getattr(self, f"m_{kind}_{m.strip('_')}", None) or getattr(self, f"m_{kind}_{m}")
        for m in METHODS["list"]:
            self.natives.setdefault(f"tuple.{m}", self.natives[f"list.{m}"])
        self.natives["InstDict.pop"] = self.m_InstDict_pop
        self.natives["InstDict.get"] = self.m_InstDict_get
        self.natives["InstDict.update"] = self.m_InstDict_update
        self.traced_roots = ()
        self.record_warnings = False
        self.virtual_types = {}
        self.ext_types = {}

    def import_(self, name, fid):
        if name in self.opaque_modules:
            return ExtV(name)
        return super().import_(name, fid)

    def load_module(self, name):
        if name in self.opaque_modules:
            return None
        return super().load_module(name)

    # ------------------------------------------------------------ contents
    def is_register(self, v):
        ty = self.typ(v)
        return ty[0] == "inst" and ty[1].native == "cyRegister"

    def content(self, v):
        st = self.st
        if isinstance(v, Ref):
            return st.cont[v]
        if isinstance(v, Term):
            o = v.op
            if o == "tuple":
                return v.args[0]
            if o in ("list", "setv"):
                return v.args[0]
            if o == "dict":
                return v
            if o == "obj":
                for f, x in v.args[1]:
                    if f == "$items":
                        return x
            if v in st.cont:
                return st.cont[v]
            for t2 in [t for t in st.cont if isinstance(t, Term)]:
                if self.kindof(t2) == self.kindof(v) and self.may_alias(v, t2):
                    if self.branch(self.is_(v, t2)):
                        return st.cont[t2]
            for u in reversed(st.updates):
                if u.kind == "cont":
                    r = self.update_lookup(u, v)
                    if r is not None:
                        return r
            return self.initial_content(v)
        raise Unsupported(f"content of {v}")

    def kindof(self, t):
        k = self.typ(t)[0]
        return {"list": "seq", "tuple": "seq"}.get(k, k)

    def initial_content(self, v):
        if v.op == "dcopy":
            return self.map_copy(self.content(v.args[0]), v.args[1])
        k = self.typ(v)[0]
        if k == "opt":
            if self.branch(T("isnone", v)):
                self.raise_("TypeError", "None")
            k = self.typ(v)[0]
        if k == "dict":
            return T("dict", splice(v))
        if k == "inst":
            if self.is_register(v):
                return seq([splice(T("items", v))])
            if v.op == "ntup":
                return v.args[1]
            raise Unsupported(f"content of {show(v)}")
        if k in ("list", "seq", "tuple", "set"):
            return seq([splice(v)])
        if k == "array":
            return v
        if k == "any":
            return seq([splice(v)])
        raise Unsupported(f"content of {show(v)} : {k}")

    def set_content(self, v, c):
        if isinstance(v, Term):
            k = self.typ(v)[0]
            if k == "tuple" or v.op in ("tuple", "list", "setv", "dict"):
                raise Unsupported("writing an immutable value")
            self.content(v)          # resolves aliases first
        self.st.cont[v] = c

    def map_copy(self, c, uid):
        def seg(x):
            if x.op == "one":
                return one(self.copy_elem(x.args[0], uid))
            if x.op == "splice":
                S = x.args[0]
                k = self.fresh("k", INT)
                el = at(S, k)
                ce = self.copy_elem(el, uid)
                if ce == el:
                    return x
                return many(k, seqlen(S), leaf([one(ce)]))
            k = self.fresh("k", INT)
            tr = subst(x.args[2], {bv(x.args[0]): k})

            def go(t):
                return leaf([seg(y) for y in t.args]) if t.op == "leaf" else ite(t.args[0], go(t.args[1]), go(t.args[2]))
            return many(k, x.args[1], go(tr))

        if c.op == "dict":
            def dseg(x):
                if x.op in ("one", "over"):
                    p = x.args[0]
                    return T(x.op, pair(self.copy_elem(p.args[0], uid), self.copy_elem(p.args[1], uid)))
                if x.op == "splice":
                    D = x.args[0]
                    k = self.fresh("k", INT)
                    return many(k, T("len", T("keys", D)), leaf([one(pair(self.copy_elem(at(T("keys", D), k), uid), self.copy_elem(at(T("vals", D), k), uid)))]))
                raise Unsupported("copy of a summarised dict")
            return T("dict", *[dseg(x) for x in c.args])
        return seq([seg(x) for x in c.args])

    def copy_elem(self, v, uid):
        if isinstance(v, Ref) or isinstance(v, Named):
            return self.deep_copy(v, uid, {})
        k = self.typ(v)[0]
        if k in ("int", "num", "str", "bool", "none", "enum", "class", "bytes") or is_const(v):
            return v
        if v.op in ("tuple",):
            return T("tuple", self.map_copy(v.args[0], uid))
        if k == "any" and v.op in ("sym", "at", "fld", "get"):
            return T("dcopy", v, uid)
        if k == "opt":
            inner = self.typ(v)[1]
            if inner[0] in ("int", "num", "str", "bool"):
                return v
        return T("dcopy", v, uid)

    def dcopy(self, v, uid=None):
        if uid is None:
            uid = 0
        return self.copy_elem(v, uid)

    def field_get(self, o, cls, name, ca):
        if isinstance(o, Term) and o.op == "dcopy" and (o, name) not in self.st.fields:
            v = super().field_get(o.args[0], self.class_of(o.args[0]), name, ca)
            return None if v is None else self.copy_elem(v, o.args[1])
        return super().field_get(o, cls, name, ca)

    def deep_copy(self, v, uid, memo):
        if isinstance(v, Ref):
            if v in memo:
                return memo[v]
            h = self.st.heap[v]
            r = self.alloc(h.kind, h.cls)
            memo[v] = r
            if v in self.st.cont:
                c = self.st.cont[v]
                self.st.cont[r] = c if h.kind == "array" else self.map_copy_m(c, uid, memo)
            for (o, f), x in list(self.st.fields.items()):
                if o == v:
                    self.st.fields[(r, f)] = self.deep_copy(x, uid, memo)
            return r
        if isinstance(v, Named) or v is None:
            return v
        if v.op == "tuple":
            return T("tuple", self.map_copy_m(v.args[0], uid, memo))
        return self.copy_elem(v, uid)

    def map_copy_m(self, c, uid, memo):
        if c.op == "dict":
            out = []
            for x in c.args:
                if x.op in ("one", "over"):
                    out.append(T(x.op, pair(self.deep_copy(x.args[0].args[0], uid, memo), self.deep_copy(x.args[0].args[1], uid, memo))))
                else:
                    out.extend(self.map_copy(T("dict", x), uid).args)
            return T("dict", *out)
        out = []
        for x in c.args:
            if x.op == "one":
                out.append(one(self.deep_copy(x.args[0], uid, memo)))
            else:
                out.extend(self.map_copy(seq([x]), uid).args)
        return seq(out)

    def update_lookup(self, u, o):
        return None

    # ------------------------------------------------------------ snapshots
    def snap(self, v, depth=0):
        if isinstance(v, Ref):
            h = self.st.heap[v]
            if depth > 6:
                return v
            if h.kind == "array":
                return self.st.cont[v]
            if h.kind == "list":
                return T("list", self.snapseq(self.st.cont[v], depth))
            if h.kind == "set":
                return T("setv", self.snapseq(self.st.cont[v], depth))
            if h.kind == "dict":
                return self.snapdict(self.st.cont[v], depth)
            return v
        if isinstance(v, Term):
            if v.op == "tuple":
                return T("tuple", self.snapseq(v.args[0], depth))
            if v.op == "dict":
                return self.snapdict(v, depth)
            if v in self.st.cont and self.typ(v)[0] in ("list", "seq", "set", "dict"):
                c = self.st.cont[v]
                return self.snapdict(c, depth) if c.op == "dict" else T("list", self.snapseq(c, depth))
            return v
        return v

    def snapseq(self, S, depth=0):
        return seq([one(self.snap(x.args[0], depth + 1)) if x.op == "one" else x for x in S.args])

    def snapdict(self, D, depth=0):
        return T("dict", *[T(x.op, pair(self.snap(x.args[0].args[0], depth + 1), self.snap(x.args[0].args[1], depth + 1))) if x.op in ("one", "over") else x for x in D.args])

    # ------------------------------------------------------------ iteration
    def as_list(self, v):
        S = self.items(v)
        if not all(x.op == "one" for x in S.args):
            raise Unsupported("symbolic sequence where a concrete one is needed")
        return [x.args[0] for x in S.args]

    def const_len(self, n):
        """n if its value is known and small."""
        if is_int_const(n):
            return cval(n)
        try:
            lo, hi = self.bounds(n)
        except Exception:
            return None
        if lo is not None and lo == hi and isinstance(lo, int) and lo <= 16:
            return lo
        return None

    def expand(self, S):
        """Segments of known small length become single elements."""
        out = []
        ch = False
        for x in S.args:
            if x.op == "splice":
                n = self.const_len(seqlen(x.args[0]))
                if n is not None:
                    out.extend(one(at(x.args[0], const(i))) for i in range(n))
                    ch = True
                    continue
            elif x.op == "many":
                n = self.const_len(x.args[1])
                if n is not None and x.args[2].op == "leaf":
                    for i in range(n):
                        out.extend(self.expand(seq(subst(x.args[2], {bv(x.args[0]): const(i)}).args)).args)
                    ch = True
                    continue
            out.append(x)
        return seq(out) if ch else S

    def items(self, v):
        """Segments a `for` over v visits."""
        if isinstance(v, (Ref, Term)):
            if isinstance(v, Term) and v.op == "seq":
                return self.expand(v)
            ty = self.typ(v)
            if ty[0] == "opt":
                if self.branch(T("isnone", v)):
                    self.raise_("TypeError", "'NoneType' object is not iterable")
                ty = self.typ(v)
            k = ty[0]
            if k == "dict":
                return self.keys_of(self.content(v))
            if k in ("list", "tuple", "seq", "set"):
                return self.expand(self.content(v))
            if k == "inst":
                if isinstance(v, Term) and v.op == "ntup":
                    return v.args[1]
                if self.is_register(v):
                    it = self.find_attr(v, self.class_of(v), "__iter__")
                    if isinstance(it, FuncV) and not self.trivial_super(it, "__iter__"):
                        return self.items(self.call(it, [v], {}))
                    return self.expand(self.content(v))
                it = self.find_attr(v, self.class_of(v), "__iter__")
                if it is not None:
                    return self.items(self.call(it, [v], {}))
                g = self.find_attr(v, self.class_of(v), "__getitem__")
                if g is not None:
                    raise Unsupported("iteration by index")
                self.raise_("TypeError", "not iterable")
            if k == "str":
                if is_const(v):
                    return seq([one(const(c)) for c in cval(v)])
                return seq([splice(v)])
            if k == "array":
                n = self.array_dim(v)
                if n is not None:
                    return seq([one(self.getitem(v, const(i))) for i in range(n)])
                return seq([splice(self.snap(v))])
            if k in ("int", "num", "bool", "none"):
                self.raise_("TypeError", "not iterable")
            if k == "any":
                return seq([splice(v)])
            raise Unsupported(f"iteration over {show(v)}: {k}")
        if isinstance(v, RangeV):
            n = v.length()
            if is_int_const(n) and cval(n) <= 16:
                return seq([one(add(v.start, mul(const(i), v.step))) for i in range(max(cval(n), 0))])
            k = self.fresh("k", INT)
            c = self.const_len(n)
            if c is not None:
                return seq([one(add(v.start, mul(const(i), v.step))) for i in range(max(c, 0))])
            n = self.nonneg(n)
            return seq([many(k, n, leaf([one(add(v.start, mul(k, v.step)))]))])
        if isinstance(v, ViewV):
            c = self.content(v.d)
            if v.kind == "keys":
                return self.keys_of(c)
            if v.kind == "values":
                return self.vals_of(c)
            return self.pairs_of(c)
        if isinstance(v, LazyV):
            if v.kind == "enumerate":
                return self.enum_segs(self.items(v.args[0]), v.args[1])
            if v.kind == "zip":
                return self.zip_segs([self.items(a) for a in v.args])
            if v.kind == "reversed":
                return self.reverse_segs(self.items(v.args[0]))
            if v.kind == "chain":
                out = []
                for a in v.args:
                    out.extend(self.items(a).args)
                return seq(out)
            return self.collect(v)
        if isinstance(v, (GenV, GenExpV)):
            return self.collect(v)
        if isinstance(v, IterV):
            c = self.st.cont[v.ref]
            self.st.cont[v.ref] = EMPTY
            return self.expand(c)
        if isinstance(v, ClassV) and v.kind == "enum":
            fr = self.st.frames[v.fid]
            return seq([one(x) for x in fr.values() if isinstance(x, Term) and x.op == "enum"])
        if isinstance(v, SliceV) or isinstance(v, Named):
            raise Unsupported(f"iteration over {v}")
        raise Unsupported(f"iteration over {v}")

    def trivial_super(self, f, name):
        """def __iter__(self): return super().__iter__()"""
        return f.qual in self.trivial

    trivial = set()

    def nonneg(self, n):
        """max(n, 0) without a case split where the sign is known."""
        v = self.decide_lit(self.rel(const(0), "<=", n))
        if v is True:
            return n
        if v is False:
            return const(0)
        if self.branch(self.rel(const(0), "<=", n)):
            return n
        return const(0)

    def collect(self, it):
        r = self.alloc("list", content=EMPTY)

        def body(v):
            self.st.cont[r] = seq(self.st.cont[r].args + (one(v),))

        self.iterate(it, body)
        return self.st.cont[r]

    def iterate(self, it, body):
        if isinstance(it, (GenV, GenExpV)):
            return self.run_generator(it, body)
        if isinstance(it, LazyV):
            if it.kind == "map":
                f = it.args[0]
                if len(it.args) == 2:
                    return self.iterate(it.args[1], lambda v: body(self.call(f, [v], {})))
                S = self.zip_segs([self.items(a) for a in it.args[1:]])
                return self.loop_over(S, lambda v: body(self.call(f, self.as_list(v), {})))
            if it.kind == "filter":
                f = it.args[0]

                def fb(v):
                    if self.truth(v if f is NONE else self.call(f, [v], {})):
                        body(v)
                return self.iterate(it.args[1], fb)
            if it.kind == "chainiter":
                return self.iterate(it.args[0], lambda v: self.iterate(v, body))
            if it.kind == "chain":
                for a in it.args:
                    self.iterate(a, body)
                return
            if it.kind == "enumerate" and isinstance(it.args[0], (GenV, GenExpV, LazyV)):
                pass
        if isinstance(it, (Ref, Term)) and self.typ(it)[0] == "inst" and not self.is_register(it) and not (isinstance(it, Term) and it.op == "ntup"):
            f = self.find_attr(it, self.class_of(it), "__iter__")
            if f is not None:
                return self.iterate(self.call(f, [it], {}), body)
        if self.live_list(it, body):
            return
        src = it
        S = self.items(it)
        before = self.st.cont.get(src) if isinstance(src, (Ref, Term)) else None
        self.loop_over(S, body)
        if before is not None and self.st.cont.get(src) != before and not (self.typ(src)[0] == "dict" and self.items(src) == S):
            self.imprecise("container changed while it is iterated")

    def live_list(self, it, body):
        """Iteration over a list of known length that follows changes made while it is iterated, as Python does."""
        step, number, src = 1, None, it
        if isinstance(src, LazyV) and src.kind == "enumerate":
            src, number = src.args
        if isinstance(src, LazyV) and src.kind == "reversed":
            src, step = src.args[0], -1
        if not isinstance(src, Ref) or self.typ(src)[0] != "list":
            return False
        S = self.expand(self.items(src))
        if not all(x.op == "one" for x in S.args):
            return False
        n, i = len(S.args), 0 if step > 0 else len(S.args) - 1
        first, rounds = n, 0
        while 0 <= i < n:
            rounds += 1
            if rounds > 60 + 2 * first and n - i >= first:
                # every round adds an element: the loop only ends when memory does
                self.raise_("MemoryError", "the list grows for ever while it is iterated")
            v = S.args[i].args[0]
            body(v if number is None else T("tuple", seq([one(number), one(v)])))
            if number is not None:
                number = add(number, const(1))
            R = self.expand(self.items(src))
            if R != S:
                if not all(x.op == "one" for x in R.args):
                    self.imprecise("container changed while it is iterated")
                else:
                    S, n = R, len(R.args)
            i += step
        return True

    def imprecise(self, why):
        self.st.imprecise = self.st.imprecise + (f"{why} at {self.where()}",)

    def enum_segs(self, S, start):
        out, off = [], start
        for x in S.args:
            if x.op == "one":
                out.append(one(T("tuple", seq([one(off), one(x.args[0])]))))
                off = add(off, const(1))
                continue
            k = self.fresh("k", INT)
            if x.op == "splice":
                el, n = at(x.args[0], k), seqlen(x.args[0])
            elif x.args[2].op == "leaf" and len(x.args[2].args) == 1 and x.args[2].args[0].op == "one":
                el, n = subst(x.args[2].args[0].args[0], {bv(x.args[0]): k}), x.args[1]
            else:
                q = seq([x])
                el, n = T("at", q, k), length(q)
            out.append(many(k, n, leaf([one(T("tuple", seq([one(add(off, k)), one(el)])))])))
            off = add(off, n)
        return seq(out)

    def zip_segs(self, Ss):
        if not Ss:
            return EMPTY
        # element-wise while all begin with single elements
        out = []
        Ss = [list(s.args) for s in Ss]
        while all(s and s[0].op == "one" for s in Ss):
            out.append(one(T("tuple", seq([s.pop(0) for s in Ss]))))
        if any(not s for s in Ss):
            return seq(out)
        # same trailing shape: one symbolic segment each of equal length
        lens = [length(seq(s)) for s in Ss]
        n = lens[0]
        for m in lens[1:]:
            if m == n:
                continue
            if self.branch(self.rel(n, "<=", m)):
                continue
            n = m
        c = self.const_len(n)
        if c is not None:
            for i in range(c):
                out.append(one(T("tuple", seq([one(self.seq_at(seq(s), const(i))) for s in Ss]))))
            return seq(out)
        k = self.fresh("k", INT)
        els = [at(seq(s), k) for s in Ss]
        out.append(many(k, n, leaf([one(T("tuple", seq([one(e) for e in els])))])))
        return seq(out)

    def reverse_segs(self, S):
        out = []
        for x in reversed(S.args):
            if x.op == "one":
                out.append(x)
            else:
                k = self.fresh("k", INT)
                if x.op == "splice":
                    n = seqlen(x.args[0])
                    out.append(many(k, n, leaf([one(at(x.args[0], sub(sub(n, const(1)), k)))])))
                elif x.args[2].op == "leaf" and len(x.args[2].args) == 1 and x.args[2].args[0].op == "one":
                    n = x.args[1]
                    out.append(many(k, n, leaf([one(subst(x.args[2].args[0].args[0], {bv(x.args[0]): sub(sub(n, const(1)), k)}))])))
                else:
                    raise Unsupported("reversed of a filtered sequence")
        return seq(out)

    # ------------------------------------------------------------ dictionaries
    def keys_of(self, D):
        return self._dict_map(D, lambda p: p.args[0], "keys")

    def vals_of(self, D):
        return self._dict_map(D, lambda p: p.args[1], "vals")

    def pairs_of(self, D):
        out = []
        for x in self.norm_dict(D).args:
            if x.op == "one":
                out.append(one(T("tuple", seq([one(x.args[0].args[0]), one(x.args[0].args[1])]))))
            elif x.op == "splice":
                d = x.args[0]
                k = self.fresh("k", INT)
                out.append(many(k, T("len", T("keys", d)), leaf([one(T("tuple", seq([one(at(T("keys", d), k)), one(at(T("vals", d), k))])))])))
            else:
                out.append(self._map_tree(x, lambda p: T("tuple", seq([one(p.args[0]), one(p.args[1])]))))
        return self.expand(seq(out))

    def _dict_map(self, D, f, which):
        out = []
        for x in self.norm_dict(D).args:
            if x.op == "one":
                out.append(one(f(x.args[0])))
            elif x.op == "splice":
                out.append(splice(T(which, x.args[0])))
            else:
                out.append(self._map_tree(x, f))
        return self.expand(seq(out))

    def _map_tree(self, x, f):
        h = x.args[0]

        def go(t):
            if t.op == "leaf":
                return T("leaf", *[one(f(s.args[0])) if s.op == "one" else self._map_tree(s, f) for s in t.args])
            return ite(t.args[0], go(t.args[1]), go(t.args[2]))

        return many_raw(h, x.args[1], go(x.args[2]))

    def norm_dict(self, D):
        if D.op != "dict":
            raise Unsupported("dictionary")
        if any(x.op in ("over", "minus") for x in D.args):
            # writes to keys of a summarised part: the values depend on the key
            base = [x for x in D.args if x.op not in ("over", "minus")]
            overs = [x for x in D.args if x.op == "over"]
            if any(x.op == "minus" for x in D.args):
                raise Unsupported("iteration over a dictionary with removed keys")
            out = []
            for x in base:
                if x.op == "splice":
                    d = x.args[0]
                    k = self.fresh("k", INT)
                    key, val = at(T("keys", d), k), at(T("vals", d), k)
                    tree = leaf([one(pair(key, val))])
                    for o in overs:
                        ko, vo = o.args[0].args
                        idx = self.key_index(T("keys", d), ko)
                        tree = ite(self.rel(k, "==", idx), leaf([one(pair(key, vo))]), tree)
                    out.append(many(k, T("len", T("keys", d)), tree))
                elif x.op == "one":
                    out.append(x)
                else:
                    raise Unsupported("writes to keys of a summarised dictionary")
            return T("dict", *out)
        if any(x.op == "overs" for x in D.args):
            raise Unsupported("iteration over a dictionary with repeated writes")
        return D

    def key_index(self, S, x):
        if isinstance(x, Term) and x.op == "at" and x.args[0] == S and self.distinct_seq(S):
            return x.args[1]
        return T("index", S, x)

    def dict_find(self, d, k):
        """-> (segment position, kind, value) or None; branches on membership."""
        D = self.content(d)
        for i in range(len(D.args) - 1, -1, -1):
            x = D.args[i]
            if x.op in ("one", "over"):
                if self.branch(self.eq(k, x.args[0].args[0])):
                    return i, x.op, x.args[0].args[1]
            elif x.op == "minus":
                if self.branch(self.eq(k, x.args[0])):
                    return None
            elif x.op == "splice":
                S = T("keys", x.args[0])
                if self.seq_in(k, seq([splice(S)])):
                    return i, "splice", self.at_(T("vals", x.args[0]), self.key_index(S, k))
            else:
                h, n, tr = x.args
                kk = None
                if tr.op == "leaf" and len(tr.args) == 1 and tr.args[0].op == "one":
                    kk, vv = tr.args[0].args[0].args
                    if isinstance(kk, Term) and kk.op == "at" and kk.args[1] == bv(h) and not occurs(kk.args[0], bv(h)):
                        S = kk.args[0]
                        if n == seqlen(S):
                            if self.seq_in(k, seq([splice(S)])):
                                if not self.distinct_seq(S):
                                    raise Unsupported("last value of a repeated key")
                                return i, "many", subst(vv, {bv(h): self.key_index(S, k)})
                            continue
                loc = self.locate(k, x, lambda p: p.args[0])
                if loc is not None:
                    if self.branch(loc[0]):
                        return i, "many", loc[1].args[1]
                    continue
                if x.op == "overs":
                    S = self._map_tree(x, lambda p: p.args[0])
                    if self.seq_in(k, seq([S])):
                        raise Unsupported("last value of a repeated key")
                    continue

                # syntactic match
                def find(t):
                    if t.op == "leaf":
                        for s in t.args:
                            b = {}
                            if s.op != "one":
                                raise Unsupported("lookup in a summarised dictionary")
                            if match_term(s.args[0].args[0], k, bv(h), b) and "v" in b:
                                return subst(s.args[0].args[1], {bv(h): b["v"]})
                        return None
                    return find(t.args[1]) or find(t.args[2])
                if tr.op == "leaf":
                    v = find(tr)
                    if v is not None:
                        return i, "many", v
                S = self._map_tree(x, lambda p: p.args[0])
                if not self.seq_in(k, seq([S])):
                    continue
                if tr.op == "leaf" and len(tr.args) == 1 and tr.args[0].op == "one":
                    # injective keys: the only index whose key is k
                    idx = T("index", seq([S]), k)
                    self.assume(self.rel(idx, "<", n), True)
                    return i, "many", subst(vv, {bv(h): idx})
                raise Unsupported("lookup in a summarised dictionary")
        return None

    def at_(self, S, i):
        return at(S, i)

    def dict_set(self, d, k, v):
        D = self.content(d)
        # fast path: constant keys
        f = self.dict_find(d, k)
        D = self.content(d)
        if f is None:
            nd = T("dict", *(tuple(x for x in D.args if not (x.op == "minus" and x.args[0] == k)) + (T("one", pair(k, v)),)))
            if any(x.op == "minus" and x.args[0] == k for x in D.args):
                raise Unsupported("re-adding a removed key")
        elif f[1] in ("one", "over"):
            i = f[0]
            key = D.args[i].args[0].args[0]
            nd = T("dict", *(D.args[:i] + (T(f[1], pair(key, v)),) + D.args[i + 1:]))
        else:
            nd = T("dict", *(D.args + (T("over", pair(k, v)),)))
        self.set_content(d, nd)

    def dict_del(self, d, k):
        f = self.dict_find(d, k)
        if f is None:
            self.raise_("KeyError", "key")
        D = self.content(d)
        if f[1] == "one":
            self.set_content(d, T("dict", *(D.args[:f[0]] + D.args[f[0] + 1:])))
        else:
            self.set_content(d, T("dict", *(D.args + (T("minus", k),))))
        return f[2]

    def dict_entries_concrete(self, d):
        out = []
        for x in self.content(d).args:
            if x.op != "one" or not is_str_const(x.args[0].args[0]):
                raise Unsupported("symbolic keyword arguments")
            out.append((cval(x.args[0].args[0]), x.args[0].args[1]))
        return out

    def dict_update(self, d, o):
        if isinstance(o, (Ref, Term)) and self.typ(o)[0] == "dict":
            D = self.content(o)
            if not self.content(d).args:
                self.set_content(d, D)
                return
            for x in D.args:
                if x.op == "one":
                    self.dict_set(d, x.args[0].args[0], x.args[0].args[1])
                else:
                    raise Unsupported("merging summarised dictionaries")
            return
        self.dict_from(d, o)

    def dict_from(self, d, it):
        def body(p):
            ps = self.unpack(p, 2)
            self.dict_set(d, ps[0], ps[1])
        # a whole mapping from distinct keys is one entry
        if isinstance(it, (LazyV, Ref, Term, ViewV)):
            S = self.items(it)
            segs = []
            ok = not self.content(d).args
            if ok and len(S.args) == 1 and S.args[0].op == "many":
                x = S.args[0]
                h, n, tr = x.args
                if tr.op == "leaf" and len(tr.args) == 1 and tr.args[0].op == "one":
                    p = tr.args[0].args[0]
                    if isinstance(p, Term) and p.op == "tuple" and len(p.args[0].args) == 2 and all(y.op == "one" for y in p.args[0].args):
                        kk, vv = (y.args[0] for y in p.args[0].args)
                        if isinstance(kk, Term) and kk.op == "at" and kk.args[1] == bv(h) and self.distinct_seq(kk.args[0]):
                            self.set_content(d, T("dict", many_raw(h, n, T("leaf", one(pair(kk, vv))))))
                            return
            self.loop_over(S, body)
            return
        self.iterate(it, body)

    # ------------------------------------------------------------ sequences
    def len_(self, v):
        if isinstance(v, (Ref, Term)):
            ty = self.typ(v)
            k = ty[0]
            if k == "opt":
                if self.branch(T("isnone", v)):
                    self.raise_("TypeError", "None has no len()")
                k = self.typ(v)[0]
            if k == "dict":
                return length(self.keys_of(self.content(v)))
            if k == "str":
                if isinstance(v, Term) and v.op == "joined":
                    return v.args[2]
                return const(len(cval(v))) if is_const(v) else T("len", v)
            if k == "inst":
                if isinstance(v, Term) and v.op == "ntup":
                    return length(v.args[1])
                f = self.find_attr(v, self.class_of(v), "__len__")
                if isinstance(f, FuncV):
                    return self.call(f, [v], {})
                if self.is_register(v):
                    return length(self.content(v))
                self.raise_("TypeError", "no len()")
            if k == "array":
                sh = self.shape_of(v)
                if sh:
                    return sh[0]
                n = self.array_dim(v)
                return const(n) if n is not None else T("len", self.snap(v))
            if k in ("int", "num", "bool", "none", "enum"):
                self.raise_("TypeError", "no len()")
            if k == "any":
                self.guard("TypeError", T("hasattr", v, "__len__"))
                return T("len", v)
            return length(self.content(v))
        if isinstance(v, RangeV):
            return self.nonneg(v.length())
        if isinstance(v, ViewV):
            return length(self.keys_of(self.content(v.d)))
        raise Unsupported(f"len of {v}")

    def seq_at(self, S, i):
        """Element i (0 <= i < len known or assumed)."""
        r = at(S, i)
        if not (isinstance(r, Term) and r.op == "at" and r.args[0] == S and isinstance(S, Term) and S.op == "seq"):
            return r
        if is_int_const(i) and cval(i) < 0:
            i = add(length(S), i)
        off = const(0)
        for x in S.args:
            n = length(seq([x]))
            if self.branch(self.rel(i, "<", add(off, n))):
                if x.op == "one":
                    return x.args[0]
                q = at(seq([x]), sub(i, off))
                if x.op == "many" and sub(i, off) == const(0) and x.args[2].op == "ite":
                    b = filter_tree(x.args[2])
                    if b is not None:
                        hh = height(b) + 1
                        f = first_of(hh, x.args[1], subst(b, {bv(x.args[0]): bv(hh)}))
                        t = subst(x.args[2], {bv(x.args[0]): f})
                        if ones_only(t):
                            while t.op == "ite":
                                t = t.args[1] if self.branch(t.args[0]) else t.args[2]
                            if not t.args:
                                raise Infeasible
                            return t.args[0].args[0]
                if x.op == "many" and isinstance(q, Term) and q.op == "at" and x.args[2].op == "ite" and all_single(x.args[2]):
                    t = subst(x.args[2], {bv(x.args[0]): sub(i, off)})
                    while t.op == "ite":
                        t = t.args[1] if self.branch(t.args[0]) else t.args[2]
                    return t.args[0].args[0]
                return q
            off = add(off, n)
        raise Infeasible

    def index_norm(self, i, n):
        """Resolves a negative index."""
        if is_int_const(i):
            return i if cval(i) >= 0 else add(n, i)
        v = self.decide_lit(self.rel(const(0), "<=", i))
        if v is True:
            return i
        if v is False:
            return add(n, i)
        if self.branch(self.rel(const(0), "<=", i)):
            return i
        return add(n, i)

    def elem(self, v, S, i, exc="IndexError"):
        n = length(S)
        i = self.index_norm(i, n)
        self.guard(exc, self.rel(const(0), "<=", i))
        self.guard(exc, self.rel(i, "<", n))
        return self.seq_at(S, i)

    def slice_(self, S, lo, hi, step):
        if step is not NONE and step != const(1):
            if step == const(-1) and lo is NONE and hi is NONE:
                return self.reverse_segs(S)
            raise Unsupported("slice step")
        n = length(S)
        if lo is NONE and hi is NONE:
            return S
        S = self.expand(S)
        if all(x.op == "one" for x in S.args) and all(x is NONE or is_int_const(x) for x in (lo, hi)):
            return T("seq", *S.args[slice(None if lo is NONE else cval(lo), None if hi is NONE else cval(hi))])
        if lo is NONE:
            lo = const(0)
        if hi is NONE:
            hi = n
        lo, hi = self.clamp(lo, n), self.clamp(hi, n)
        if lo == hi:
            return EMPTY
        # cut along segments
        out, off = [], const(0)
        for x in S.args:
            m = length(seq([x]))
            end = add(off, m)
            if self.decide_lit(self.rel(end, "<=", lo)) is True or self.decide_lit(self.rel(hi, "<=", off)) is True:
                off = end
                continue
            inside = self.decide_lit(self.rel(lo, "<=", off)) is True and self.decide_lit(self.rel(end, "<=", hi)) is True
            if inside:
                out.append(x)
            elif x.op == "one":
                if self.branch(self.rel(lo, "<=", off)) and self.branch(self.rel(end, "<=", hi)):
                    out.append(x)
            else:
                a = sub(lo, off) if self.branch(self.rel(off, "<=", lo)) else const(0)
                b = sub(hi, off) if self.branch(self.rel(hi, "<=", end)) else m
                out.extend(self.cut(x, a, b, m))
            off = end
        return seq(out)

    def cut(self, x, a, b, m, fits=None):
        """Elements a..b of one segment (0 <= a, b <= m)."""
        if a == const(0) and b == m:
            return [x]
        if fits is None:
            fits = self.decide_lit(self.rel(a, "<=", b)) is True
        if fits and (a == b or self.decide_lit(self.rel(b, "<=", a)) is True):
            return []
        c = self.const_len(sub(b, a))
        base = x.args[0] if x.op == "splice" else seq([x])
        if c is not None:
            return [one(at(base, add(a, const(j)))) for j in range(max(c, 0))]
        if x.op == "many" and fits and x.args[2].op == "leaf" and len(x.args[2].args) == 1 and x.args[2].args[0].op == "one":
            h, _, tr = x.args
            return [many_raw(h, sub(b, a), subst(tr, {bv(h): add(bv(h), a)}))]
        if isinstance(base, Term) and base.op == "slice":
            a, b, base = add(a, base.args[1]), add(b, base.args[1]), base.args[0]
        if fits:
            return [T("splice", T("slice", base, a, b))]
        return [T("splice", T("slicex", base, a, b))]

    def clamp(self, i, n):
        if is_int_const(i) and cval(i) < 0:
            i = add(n, i)
            if not self.branch(self.rel(const(0), "<=", i)):
                return const(0)
            return i
        if not is_int_const(i):
            if not self.branch(self.rel(const(0), "<=", i)):
                i = add(n, i)
                if not self.branch(self.rel(const(0), "<=", i)):
                    return const(0)
        if i == n:
            return n
        if self.branch(self.rel(i, "<=", n)):
            return i
        return n

    def no_member(self, x, S):
        """x certainly is not an element of the opaque sequence S."""
        if isinstance(x, Named):
            return True
        if is_const(x):
            ty = self.typ(S)
            e = ty[1] if len(ty) > 1 else ANY
            if e[0] == "inst" and (cval(x) is None or isinstance(cval(x), str)):
                return True
            if e[0] in ("int", "num", "bool") and (cval(x) is None or isinstance(cval(x), str)):
                return True
            if e[0] == "str" and not isinstance(cval(x), str):
                return True
            return False
        if isinstance(S, (Ref, Named)):
            return False
        tx = self.typ(x)
        ts = self.typ(S)
        e = ts[1] if len(ts) > 1 else ANY
        if tx[0] == "inst" and e[0] == "inst":
            idc = [c for c in tx[1].mro if c.name in self.IDCLASSES] or [c for c in e[1].mro if c.name in self.IDCLASSES]
            if idc and not (tx[1].sub(e[1]) or e[1].sub(tx[1])):
                return True
            fresh = isinstance(x, Ref) or x.op == "obj"
            if fresh and tx[1].name in ("Qubit", "Bit") and self.root_kind(S) == ("old",):
                return True
            if fresh and self.class_lookup(tx[1], "__eq__") is None and self.root_kind(S) == ("old",):
                return True
        if tx[0] == "inst" and e[0] in ("int", "num", "str", "bool") and tx[1].name == "Qubit":
            return True
        return False

    def in_lit(self, x, S):
        """Literal: x is an element of opaque sequence term S."""
        if self.no_member(x, S):
            return FALSE
        y = self.strip_copy(x)
        if isinstance(y, Term) and y.op == "at" and y.args[0] == S:
            return TRUE
        if isinstance(y, Term) and y.op == "at":
            # registers of one circuit share no qubit or bit
            R = y.args[0]
            if isinstance(R, Term) and R.op == S.op == "items":
                p, q = R.args[0], S.args[0]
                if isinstance(p, Term) and isinstance(q, Term) and p.op == q.op == "at" and p.args[0] == q.args[0] and self.one_family(S, q.args[1]):
                    return self.rel(p.args[1], "==", q.args[1])
        return T("in", self.snap(y), S)

    def one_family(self, S, i):
        """Whether S is the items of register i of a circuit."""
        if not (isinstance(S, Term) and S.op == "items" and isinstance(S.args[0], Term) and S.args[0].op == "at" and S.args[0].args[1] == i):
            return False
        V = S.args[0].args[0]
        if not (isinstance(V, Term) and V.op == "vals"):
            return False
        e = self.typ(S)
        return len(e) > 1 and e[1][0] == "inst" and e[1][1].name in ("Qubit", "Bit")

    def locate(self, x, s, key=lambda e: e):
        """(literal: x is an element of the segment, the element) if the segment's elements differ from each other and x is one of their family."""
        if s.op not in ("many", "overs"):
            return None
        h, n, tr = s.args
        if tr.op != "leaf" or len(tr.args) != 1:
            return None
        y = tr.args[0]
        x = self.strip_copy(x)
        if not isinstance(x, Term):
            return None
        if y.op == "one":
            e = y.args[0]
            ke = key(e)
            if not isinstance(ke, Term):
                return None
            if not (ke.op == "at" and ke.args[1] == bv(h) and not occurs(ke.args[0], bv(h)) and self.distinct_seq(ke.args[0])
                    or ke.op == "obj" and occurs(ke.args[2], bv(h))):
                return None
            v = solve_member(ke, x, bv(h))
            if v is None:
                return None
            return self.both(self.rel(const(0), "<=", v), self.rel(v, "<", n)), subst(e, {bv(h): v})
        if y.op == "many":
            h2, n2, tr2 = y.args
            if tr2.op != "leaf" or len(tr2.args) != 1 or tr2.args[0].op != "one":
                return None
            e = tr2.args[0].args[0]
            ke = key(e)
            if not isinstance(ke, Term) or ke.op != x.op:
                return None
            b = {}
            if ke.op == "at" and ke.args[1] == bv(h2) and ke.args[0].op == "items" and occurs(ke.args[0], bv(h)):
                S = ke.args[0]
                if not match_term(S, x.args[0], bv(h), b) or "v" not in b:
                    if n2 != seqlen(S) or not self.one_family(S, bv(h)):
                        return None
                    lit = self.seg_in_lit(x, T("many", h, n, leaf([splice(S)])))
                    tree = ite_bool(self.in_lit(x, S), TRUE, FALSE)
                    v = first_of(h, n, tree)
                    Sv = subst(S, {bv(h): v})
                    return lit, subst(subst(e, {bv(h): v}), {bv(h2): T("index", Sv, self.snap(x))})
                v, j = b["v"], x.args[1]
            elif ke.op == "obj":
                p, q = ke.args[2], x.args[2]
                if not (isinstance(p, Term) and isinstance(q, Term) and p.op == q.op == "new" and p.args[0] == q.args[0] and p.args[1] == bv(h2) and occurs(p.args[2], bv(h))):
                    return None
                if not match_term(p.args[2], q.args[2], bv(h), b) or "v" not in b:
                    return None
                v, j = b["v"], q.args[1]
            else:
                return None
            sub_ = lambda t: subst(subst(t, {bv(h): v}), {bv(h2): j}) if isinstance(t, Term) else t
            if sub_(ke) != x or self.decide(self.rel(j, "<", sub_(n2))) is not True:
                return None
            return self.both(self.rel(const(0), "<=", v), self.rel(v, "<", n)), sub_(e)
        return None

    def both(self, p, q):
        """A literal for p and q, one of which is decided."""
        for a, b in ((p, q), (q, p)):
            d = self.decide(a)
            if d is False:
                return FALSE
            if d is True:
                e = self.decide(b)
                return b if e is None else const(e)
        return p if self.branch(q) else FALSE

    def seg_in_lit(self, x, s):
        if s.op == "one":
            return self.eq(x, s.args[0])
        if s.op == "splice":
            S = s.args[0]
            if isinstance(S, Term) and S.op == "slice":
                pass
            return self.in_lit(x, S)
        loc = self.locate(x, s)
        if loc is not None:
            return loc[0]
        h, n, tr = s.args
        k = self.fresh("k", INT)
        tr2 = subst(tr, {bv(h): k})

        def go(t):
            if t.op == "leaf":
                r = FALSE
                for y in reversed(t.args):
                    l = self.seg_in_lit(x, y)
                    r = ite_bool(l, TRUE, r)
                return r
            return ite(t.args[0], go(t.args[1]), go(t.args[2]))

        tree = go(tr2)
        if tree == FALSE:
            return FALSE
        if tree == TRUE:
            return self.rel(const(1), "<=", n)
        if isinstance(x, Term) and x.op == "at" and s.op == "many" and x.args[0] == seq([s]):
            return TRUE
        # the whole tree as exists
        hh = height(tree) + 1
        lit = exists_lit(hh, n, subst(tree, {k: bv(hh)}))
        # known member: x = element j of this segment
        if tr.op == "leaf" and len(tr.args) == 1:
            b = {}
            y = tr.args[0]
            if y.op == "one" and solve_member(y.args[0], x, bv(h)) is not None:
                return TRUE
            if y.op == "splice" and isinstance(x, Term) and x.op == "at" and match_term(y.args[0], x.args[0], bv(h), b) and "v" in b:
                return TRUE
        return lit

    def seq_in(self, x, S):
        for s in S.args:
            if self.branch(self.seg_in_lit(x, s)):
                return True
        return False

    def seq_index(self, x, S):
        """Position of the first element equal to x, or None."""
        off = const(0)
        for s in S.args:
            lit = self.seg_in_lit(x, s)
            if self.branch(lit):
                if s.op == "one":
                    return off
                if s.op == "splice":
                    return add(off, self.first_index(s.args[0], x))
                q = seq([s])
                y = self.strip_copy(x)
                if s.op == "many" and s.args[2].op == "leaf" and len(s.args[2].args) == 1 and s.args[2].args[0].op == "one":
                    j = solve_member(s.args[2].args[0].args[0], y, bv(s.args[0])) if self.distinct_seq(q) else None
                    if j is not None:
                        return add(off, j)
                return add(off, T("index", q, self.snap(y)))
            off = add(off, length(seq([s])))
        return None

    def first_index(self, S, x):
        y = self.strip_copy(x)
        if isinstance(y, Term) and y.op == "at" and y.args[0] == S and self.distinct_seq(S):
            return y.args[1]
        return T("index", S, self.snap(y))

    def contains(self, c, x):
        if isinstance(c, ViewV):
            if c.kind == "keys":
                return const(self.dict_find(c.d, x) is not None)
            return const(self.seq_in(x, self.items(c)))
        if isinstance(c, (Ref, Term)):
            k = self.typ(c)[0]
            if k == "opt":
                if self.branch(T("isnone", c)):
                    self.raise_("TypeError", "argument of type 'NoneType' is not iterable")
                k = self.typ(c)[0]
            if k == "dict":
                return const(self.dict_find(c, x) is not None)
            if k == "str":
                if is_const(c) and is_const(x):
                    return const(cval(x) in cval(c))
                return T("in", x, c)
            if k == "inst":
                f = self.find_attr(c, self.class_of(c), "__contains__")
                if isinstance(f, FuncV):
                    return const(self.truth(self.call(f, [c, x], {})))
            return const(self.seq_in(x, self.items(c)))
        if isinstance(c, RangeV):
            if c.step == const(1):
                return const(self.branch(self.rel(c.start, "<=", x)) and self.branch(self.rel(x, "<", c.stop)))
        if isinstance(c, (InstDict, ClassDict)):
            return const(self.instdict_has(c, x))
        return const(self.seq_in(x, self.items(c)))

    def instdict_has(self, d, x):
        if not is_str_const(x):
            if is_const(x) or x == NONE:
                return False
            raise Unsupported("symbolic attribute name")
        n = cval(x)
        if isinstance(d, ClassDict):
            return n in self.st.frames[d.cls.fid]
        o = d.obj
        cls = self.class_of(o)
        ca = self.find_attr(o, cls, n)
        return self.field_get(o, cls, n, ca) is not None

    def getitem(self, o, i):
        if isinstance(o, (Ref, Term)):
            ty = self.typ(o)
            k = ty[0]
            if k == "opt":
                if self.branch(T("isnone", o)):
                    self.raise_("TypeError", "'NoneType' object is not subscriptable")
                k = self.typ(o)[0]
            if k == "dict":
                f = self.dict_find_guard(o, i)
                if f is None:
                    self.raise_("KeyError", i if isinstance(i, Term) else "key")
                return f[2]
            if k in ("list", "tuple", "seq"):
                S = self.content(o)
                if isinstance(i, SliceV):
                    S2 = self.slice_(S, i.lo, i.hi, i.step)
                    if k == "tuple":
                        return T("tuple", S2)
                    if k == "seq":
                        return self.alloc("list", content=S2)
                    return self.alloc("list", content=S2)
                return self.elem(o, S, i)
            if k == "str":
                if isinstance(i, SliceV):
                    if is_const(o) and all(x is NONE or is_int_const(x) for x in (i.lo, i.hi, i.step)):
                        return const(cval(o)[slice(*[None if x is NONE else cval(x) for x in (i.lo, i.hi, i.step)])])
                    return T("strslice", o, i.lo, i.hi, i.step)
                if is_const(o) and is_int_const(i):
                    return const(cval(o)[cval(i)])
                return T("at", o, i)
            if k == "inst":
                if isinstance(o, Term) and o.op == "ntup":
                    return self.elem(o, o.args[1], i)
                f = self.find_attr(o, self.class_of(o), "__getitem__")
                if isinstance(f, FuncV):
                    return self.call(f, [o, i], {})
                if self.is_register(o):
                    return self.m_cyRegister_getitem(o, i)
                self.raise_("TypeError", "not subscriptable")
            if k == "array":
                return self.array_getitem(o, i)
            if k == "any":
                return self.any_getitem(o, i)
            if k == "ext":
                return T("getitem", o, i)
            self.raise_("TypeError", "not subscriptable")
        if isinstance(o, (ClassV, BuiltinV, ExtV)):
            return o                 # generic alias
        if isinstance(o, RangeV):
            return add(o.start, mul(self.index_norm(i, o.length()), o.step))
        if isinstance(o, ClassDict):
            return self.st.frames[o.cls.fid][cval(i)]
        if isinstance(o, InstDict):
            cls = self.class_of(o.obj)
            v = self.field_get(o.obj, cls, cval(i), self.find_attr(o.obj, cls, cval(i)))
            if v is None:
                self.raise_("KeyError", i)
            return v
        raise Unsupported(f"subscript of {o}")

    def any_getitem(self, o, i):
        if isinstance(i, SliceV):
            return T("slicex", o, i.lo, i.hi)
        return at(o, i)

    def dict_find_guard(self, d, k):
        """Lookup: a missing key matters only where the KeyError can be observed."""
        D = self.content(d)
        last = D.args[0] if D.args else None
        if not self.caught("KeyError") and len(D.args) == 1 and last.op in ("splice", "many"):
            if last.op == "splice":
                S = T("keys", last.args[0])
                lit = self.seg_in_lit(k, splice(S))
                self.guard("KeyError", lit)
            elif last.args[2].op == "leaf" and len(last.args[2].args) == 1:
                kk = last.args[2].args[0].args[0].args[0]
                if isinstance(kk, Term) and kk.op == "at" and kk.args[1] == bv(last.args[0]) and not occurs(kk.args[0], bv(last.args[0])):
                    self.guard("KeyError", self.seg_in_lit(k, splice(kk.args[0])))
                else:
                    S = self._map_tree(last, lambda p: p.args[0])
                    self.guard("KeyError", self.seg_in_lit(k, S))
        return self.dict_find(d, k)

    def setitem(self, o, i, v):
        if isinstance(o, (Ref, Term)):
            k = self.typ(o)[0]
            if k == "dict":
                return self.dict_set(o, i, v)
            if k in ("list", "seq"):
                S = self.content(o)
                if isinstance(i, SliceV):
                    if i.lo is NONE and i.hi is NONE:
                        return self.set_content(o, self.items(v))
                    raise Unsupported("slice assignment")
                n = length(S)
                i = self.index_norm(i, n)
                self.guard("IndexError", self.rel(i, "<", n))
                return self.set_content(o, self.seq_set(S, i, v))
            if k == "array":
                return self.array_setitem(o, i, v)
            if k == "inst":
                f = self.find_attr(o, self.class_of(o), "__setitem__")
                if isinstance(f, FuncV):
                    return self.call(f, [o, i, v], {})
            self.raise_("TypeError", "item assignment")
        if isinstance(o, InstDict):
            self.field_set(o.obj, cval(i), v)
            return
        raise Unsupported(f"item assignment to {o}")

    def seq_set(self, S, i, v):
        off = const(0)
        S = self.expand(S)
        out = list(S.args)
        for j, x in enumerate(out):
            n = length(seq([x]))
            if self.branch(self.rel(i, "<", add(off, n))):
                if x.op == "one":
                    out[j] = one(v)
                else:
                    p = sub(i, off)
                    out[j:j + 1] = self.cut(x, const(0), p, n, True) + [one(v)] + self.cut(x, add(p, const(1)), n, n, True)
                return seq(out)
            off = add(off, n)
        raise Infeasible

    def delitem(self, o, i):
        if isinstance(o, (Ref, Term)):
            k = self.typ(o)[0]
            if k == "dict":
                self.dict_del(o, i)
                return
            if k in ("list", "seq"):
                S = self.content(o)
                if isinstance(i, SliceV):
                    if i.lo is NONE and i.hi is NONE and i.step is NONE:
                        return self.set_content(o, EMPTY)
                    lo = self.slice_(S, NONE, i.lo if i.lo is not NONE else const(0), NONE)
                    hi = self.slice_(S, i.hi, NONE, NONE) if i.hi is not NONE else EMPTY
                    return self.set_content(o, seq(lo.args + hi.args))
                n = length(S)
                i = self.index_norm(i, n)
                self.guard("IndexError", self.rel(i, "<", n))
                self.seq_del(o, S, i)
                return
        if isinstance(o, InstDict):
            return self.delattr(o.obj, cval(i))
        raise Unsupported("del item")

    def seq_del(self, o, S, i):
        S = self.expand(S)
        off, out = const(0), list(S.args)
        for j, x in enumerate(out):
            n = length(seq([x]))
            if self.branch(self.rel(i, "<", add(off, n))):
                if x.op == "one":
                    r = out[:j] + out[j + 1:]
                else:
                    p = sub(i, off)
                    r = out[:j] + self.cut(x, const(0), p, n, True) + self.cut(x, add(p, const(1)), n, n, True) + out[j + 1:]
                self.set_content(o, seq(r))
                return
            off = add(off, n)
        raise Infeasible

    # ------------------------------------------------------------ operators
    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            r = self.eq(a, b)
            return self.negate(r)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.negate(self.is_(a, b))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.negate(self.contains(b, a))
        o = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                return const({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o])
            except TypeError:
                self.raise_("TypeError", "comparison")
        if isinstance(a, (Ref, Named)) or isinstance(b, (Ref, Named)):
            ta = self.typ(a)[0] if not isinstance(a, Named) else ""
            if ta in ("list", "tuple"):
                xs, ys = self.as_list(a), self.as_list(b)
                for x, y in zip(xs, ys):
                    if self.branch(self.eq(x, y)):
                        continue
                    return self.compare(op, x, y)
                return const({"<": len(xs) < len(ys), "<=": len(xs) <= len(ys), ">": len(xs) > len(ys), ">=": len(xs) >= len(ys)}[o])
            raise Unsupported("ordering of objects")
        for x in (a, b):
            if self.typ(x)[0] == "opt":
                if self.branch(T("isnone", x)):
                    self.raise_("TypeError", "ordering of None")
            if self.typ(x)[0] == "none":
                self.raise_("TypeError", "ordering of None")
        ka, kb = self.typ(a)[0], self.typ(b)[0]
        num = ("int", "num", "bool", "any")
        if ka in num and kb in num:
            return self.rel(a, o, b)
        if ka == kb == "tuple":
            xs, ys = self.as_list(a), self.as_list(b)
            for x, y in zip(xs, ys):
                if self.branch(self.eq(x, y)):
                    continue
                return self.compare(op, x, y)
            return const({"<": len(xs) < len(ys), "<=": len(xs) <= len(ys), ">": len(xs) > len(ys), ">=": len(xs) >= len(ys)}[o])
        if ka == kb == "str":
            if self.branch(self.eq(a, b)):
                return const(o in ("<=", ">="))
            flip = show_full(a) > show_full(b)
            less = self.branch(T("strlt", b, a) if flip else T("strlt", a, b)) != flip
            return const(less == (o in ("<", "<=")))
        if ka == "array" or kb == "array":
            return self.ext_value("cmp" + o, (a, b))
        if (ka in num) != (kb in num) and "any" not in (ka, kb):
            self.raise_("TypeError", "ordering")
        raise Unsupported("ordering")

    def negate(self, r):
        if r is TRUE or r == TRUE:
            return FALSE
        if r == FALSE:
            return TRUE
        if r.op == "not":
            return r.args[0]
        return T("not", r)

    SPECIAL = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.MatMult: "__matmul__",
               ast.BitOr: "__or__", ast.BitAnd: "__and__", ast.BitXor: "__xor__", ast.Mod: "__mod__", ast.Pow: "__pow__",
               ast.FloorDiv: "__floordiv__", ast.LShift: "__lshift__", ast.RShift: "__rshift__"}

    def augop(self, op, a, b):
        if isinstance(a, (Ref, Term)):
            k = self.typ(a)[0]
            if k in ("list", "seq") and isinstance(op, ast.Add):
                if k == "list" or not isinstance(a, Term) or self.isinstance_(a, BuiltinV("list")):
                    self.m_list_extend(a, b)
                    return a
            if k == "set" and isinstance(op, ast.BitOr):
                self.m_set_update(a, b)
                return a
            if k == "dict" and isinstance(op, ast.BitOr):
                self.dict_update(a, b)
                return a
            if k == "array" and isinstance(a, Ref):
                r = self.binop(op, a, b)
                self.st.cont[a] = self.snap(r)
                return a
            if k == "inst":
                n = "__i" + self.SPECIAL[type(op)][2:]
                f = self.find_attr(a, self.class_of(a), n)
                if isinstance(f, FuncV):
                    return self.call(f, [a, b], {})
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, (ClassV, BuiltinV, ExtV)) or isinstance(b, (ClassV, BuiltinV, ExtV)):
            if isinstance(op, ast.BitOr):
                return ExtV("typing.Union")
        if isinstance(a, Named) or isinstance(b, Named):
            raise Unsupported(f"operator on {a}, {b}")
        for x in (a, b):
            if isinstance(x, Term) and self.typ(x)[0] == "opt":
                if self.branch(T("isnone", x)):
                    self.raise_("TypeError", "None operand")
        ka, kb = self.typ(a)[0], self.typ(b)[0]
        if "none" in (ka, kb):
            self.raise_("TypeError", "None operand")
        if ka == "inst" or kb == "inst":
            n = self.SPECIAL.get(type(op))
            if ka == "inst":
                f = self.find_attr(a, self.class_of(a), n)
                if f is not None:
                    return self.call(BoundV(f, a), [b], {})
            if kb == "inst":
                f = self.find_attr(b, self.class_of(b), "__r" + n[2:])
                if f is not None:
                    return self.call(BoundV(f, b), [a], {})
            if isinstance(op, ast.Add) and (ka in ("list", "tuple") or kb in ("list", "tuple")):
                self.raise_("TypeError", "operands")
            if ka == "inst" and kb == "inst" or {ka, kb} & {"int", "num", "str", "tuple", "list"}:
                self.raise_("TypeError", f"unsupported operand type(s) for {n}")
        if ka == "array" or kb == "array":
            sym_ = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.MatMult: "@", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|"}[type(op)]
            return self.ext_value(sym_, (a, b))
        seqs = ("list", "tuple", "seq")
        if isinstance(op, ast.Add):
            if ka in seqs and kb in seqs:
                S = seq(self.items(a).args + self.items(b).args)
                return T("tuple", S) if ka == "tuple" else self.alloc("list", content=S)
            if ka == "str" and kb == "str":
                return cat([a, b])
            if (ka == "str") != (kb == "str") and "any" not in (ka, kb):
                self.raise_("TypeError", "str + other")
        if isinstance(op, ast.Mult):
            for x, y, kx, ky in ((a, b, ka, kb), (b, a, kb, ka)):
                if kx in seqs and ky in ("int", "bool", "any"):
                    S = self.items(x)
                    if is_int_const(y) and cval(y) <= 16:
                        segs = list(S.args) * max(cval(y), 0)
                        S2 = seq(segs)
                    else:
                        c = self.const_len(y)
                        if c is not None:
                            S2 = seq(list(S.args) * c)
                        else:
                            k = self.fresh("k", INT)
                            S2 = seq([many(k, self.nonneg(y), leaf(S.args))])
                    return T("tuple", S2) if kx == "tuple" else self.alloc("list", content=S2)
                if kx == "str" and ky in ("int", "bool"):
                    if is_const(x) and is_int_const(y):
                        return const(cval(x) * cval(y))
                    k = self.fresh("k", INT)
                    return T("fold", seq([many(k, self.nonneg(y), leaf([one(x)]))]))
        if isinstance(op, ast.Mod) and ka == "str":
            return T("fmt", b if isinstance(b, Term) else self.snap(b), a)
        if ka in ("set", ) and kb in ("set",):
            return T("setop", type(op).__name__, self.snap(a), self.snap(b))
        if ka in ("set", "dict") or kb in ("set", "dict"):
            raise Unsupported("set operator")
        return self.arith(op, a, b)

    def arith(self, op, a, b):
        if is_const(a) and is_const(b) and not isinstance(cval(a), (str, type(None))) and not isinstance(cval(b), (str, type(None))):
            x, y = cval(a), cval(b)
            try:
                if isinstance(op, ast.Add):
                    return const(x + y)
                if isinstance(op, ast.Sub):
                    return const(x - y)
                if isinstance(op, ast.Mult):
                    return const(x * y)
                if isinstance(op, ast.Div):
                    return const(x / y)
                if isinstance(op, ast.FloorDiv):
                    return const(x // y)
                if isinstance(op, ast.Mod):
                    return const(x % y)
                if isinstance(op, ast.Pow):
                    return const(x ** y)
                if isinstance(op, ast.LShift):
                    return const(x << y)
                if isinstance(op, ast.RShift):
                    return const(x >> y)
                if isinstance(op, ast.BitAnd):
                    return const(x & y)
                if isinstance(op, ast.BitOr):
                    return const(x | y)
                if isinstance(op, ast.BitXor):
                    return const(x ^ y)
            except (ZeroDivisionError, ValueError, TypeError) as e:
                self.raise_(type(e).__name__, str(e))
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            if is_num_const(b) and cval(b) != 0:
                y = cval(b)
                if isinstance(y, complex):
                    return scale(a, 1 / y)
                fr = Fraction(1) / Fraction(y)
                d, c = linparts(a)
                if not any(isinstance(k, (complex,)) for k in list(d.values()) + [c]):
                    return self.scale_frac(a, fr)
                return scale(a, 1 / y)
            self.guard("ZeroDivisionError", self.negate(self.rel(b, "==", const(0))))
            return T("bin", "/", a, b)
        if isinstance(op, ast.LShift):
            if a == const(1):
                return self.pow2(b)
            if is_int_const(a):
                return mul(a, self.pow2(b))
            return mul(a, self.pow2(b))
        if isinstance(op, ast.Pow):
            if a == const(2) and self.is_int(b):
                return self.pow2(b)
            if b == const(2):
                return mul(a, a)
            if b == const(1):
                return a
            return T("bin", "**", a, b)
        if isinstance(op, ast.FloorDiv):
            return T("floordiv", a, b)
        if isinstance(op, ast.RShift):
            return T("floordiv", a, self.pow2(b))
        if isinstance(op, ast.Mod):
            return T("imod", a, b)
        return T("bin", type(op).__name__, a, b)

    def bitlen(self, v):
        if is_int_const(v):
            return const(cval(v).bit_length())
        n = self.log2(v)
        return add(n, const(1)) if n is not None else T("bitlen", v)

    def log2(self, v):
        return None

    def scale_frac(self, a, fr):
        d, c = linparts(a)

        def m(k):
            r = Fraction(k).limit_denominator(10**9) * fr if isinstance(k, (int, Fraction)) else k * float(fr)
            if isinstance(r, Fraction) and r.denominator == 1:
                return int(r)
            return r

        from .terms import _mk
        return _mk({x: m(k) for x, k in d.items()}, m(c))

    def pow2(self, n):
        """2**n with integer offsets pulled out: 2**(n+c) = 2**c * 2**n."""
        if is_int_const(n):
            if cval(n) < 0:
                return const(Fraction(1, 2 ** -cval(n)))
            return const(2 ** cval(n))
        d, c = linparts(n)
        r = None
        for x, k in sorted(d.items(), key=lambda p: skey(p[0])):
            if not isinstance(k, int) or k < 0:
                return T("pow2", n)
            for _ in range(k):
                r = T("pow2", x) if r is None else mul(r, T("pow2", x))
        if not isinstance(c, int):
            return T("pow2", n)
        if c >= 0:
            return scale(r, 2 ** c)
        return scale(r, Fraction(1, 2 ** -c))

    def unary(self, op, v):
        if isinstance(v, (Ref, Term)) and self.typ(v)[0] == "array":
            return self.ext_value("*", (const(-1), v)) if isinstance(op, ast.USub) else v
        if isinstance(op, ast.USub):
            return neg(v) if not (is_const(v) and isinstance(cval(v), float)) else const(-cval(v))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            return sub(neg(v), const(1))
        raise Unsupported("unary")

    # ------------------------------------------------------------ strings
    def to_str(self, v):
        if isinstance(v, Term):
            if is_const(v):
                return const(str(cval(v)))
            k = self.typ(v)[0]
            if k == "str":
                return v
            if v.op == "clsname":
                return v
            if k == "inst" and (self.typ(v)[1].name in self.str_inline or self.typ(v)[1].qual.startswith("pyqir.")):
                f = self.own_str(v)
                if f is not None:
                    return self.call(f, [v], {})
            return T("str", self.snap(v))
        if isinstance(v, Ref):
            if self.st.heap[v].kind == "inst" and (self.typ(v)[1].name in self.str_inline or self.typ(v)[1].qual.startswith("pyqir.")):
                f = self.own_str(v)
                if f is not None:
                    return self.call(f, [v], {})
            return T("str", self.snap(v))
        if isinstance(v, ExcV):
            return v.args[0] if v.args and isinstance(v.args[0], Term) else T("str", const(v.clsname()))
        return T("str", const(getattr(v, "name", "?")))

    str_inline = ()

    def own_str(self, v):
        for n in ("__str__", "__repr__"):
            f = self.find_attr(v, self.class_of(v), n)
            if isinstance(f, FuncV):
                return f
        return None

    def to_repr(self, v):
        if isinstance(v, Term) and is_const(v):
            return const(repr(cval(v)))
        return T("repr", self.snap(v) if isinstance(v, (Ref, Term)) else const(v.name))

    # ------------------------------------------------------------ sets
    def set_add(self, r, s):
        c = self.content(r)
        if s.op == "one":
            x = s.args[0]
            if self.seq_in(x, c):
                return
            self.set_content(r, seq(c.args + (one(x),)))
        else:
            if s in c.args:
                return
            self.set_content(r, seq(c.args + (s,)))

    # ------------------------------------------------------------ arrays and external values
    def ext_attr(self, o, name):
        if not isinstance(o, ExtV):
            return self.getattr(o, name)
        p = o.path + "." + name
        if p in ("math.pi", "numpy.pi", "cmath.pi"):
            return T("pi")
        if p in ("math.e", "numpy.e"):
            return T("ext", "e", seq([]), ())
        if p == "typing.TYPE_CHECKING":
            return FALSE
        if p == "numpy.newaxis":
            return NONE
        return ExtV(p)

    def ext_value(self, path, args, kwargs=()):
        path = NP_ALIAS.get(path, path)
        t = T("ext", path, seq([one(self.snap(a) if isinstance(a, (Ref, Term)) else T("named", a)) for a in args]),
              tuple(sorted((k, self.snap(v) if isinstance(v, (Ref, Term)) else T("named", v)) for k, v in dict(kwargs).items())))
        t = self.simplify_ext(t)
        if t.op != "ext":
            return t
        if self.ext_is_array(path, args):
            self.st.types.setdefault(t, ARRAY)
            return self.alloc("array", content=t)
        return t

    def simplify_ext(self, t):
        return t

    def shape_of(self, t):
        return None

    ARRAY_FUNS = {"numpy.zeros", "numpy.ones", "numpy.eye", "numpy.array", "numpy.kron", "numpy.conj", "numpy.outer",
                  "numpy.ascontiguousarray", "numpy.transpose", "numpy.reshape", "numpy.copy", "numpy.diag", "numpy.empty", "numpy.full",
                  "numpy.zeros_like", "numpy.exp", "numpy.ones_like", "numpy.sum", "numpy.block", "numpy.concatenate", "numpy.moveaxis",
                  "numpy.tensordot", "numpy.einsum"}
    ARRAY_METHODS = {"copy", "conj", "conjugate", "reshape", "transpose", "astype", "flatten", "ravel", "T", "mean", "dot"}

    def ext_is_array(self, path, args):
        if path in self.ARRAY_FUNS:
            if path in ("numpy.exp", "numpy.sum", "numpy.conj"):
                return any(isinstance(a, (Ref, Term)) and self.typ(a)[0] in ("array", "list") for a in args)
            return True
        if path in ("+", "-", "*", "/", "@", "**", "&", "|"):
            return any(isinstance(a, (Ref, Term)) and self.typ(a)[0] == "array" for a in args)
        if path.startswith("."):
            return path[1:] in self.ARRAY_METHODS
        return False

    def array_dim(self, v):
        """Length of the first axis where the value shows it."""
        t = self.snap(v)
        if isinstance(t, Term) and t.op == "ext" and t.args[1].args:
            p, a = t.args[0], t.args[1].args
            if p == "numpy.array" and a[0].op == "one":
                x = a[0].args[0]
                if isinstance(x, Term) and x.op in ("list", "tuple"):
                    n = length(x.args[0])
                    return cval(n) if is_int_const(n) else None
            if p == "numpy.eye" and is_int_const(a[0].args[0]):
                return cval(a[0].args[0])
            if p in (".conj", ".copy", "numpy.conj", "numpy.ascontiguousarray"):
                return self.array_dim(a[0].args[0])
            if p == "*":
                for y in a:
                    if self.typ(y.args[0])[0] == "array" or (isinstance(y.args[0], Term) and y.args[0].op == "ext"):
                        n = self.array_dim(y.args[0])
                        if n is not None:
                            return n
        return None

    def idx_term(self, i):
        if isinstance(i, SliceV):
            return T("sl", i.lo, i.hi, i.step)
        if isinstance(i, (Ref, Term)):
            if isinstance(i, Term) and i.op == "tuple":
                return T("tuple", seq([one(self.idx_term(x)) for x in self.as_list(i)]))
            return self.snap(i)
        return T("named", i)

    def array_getitem(self, o, i):
        c = self.snap(o)
        it = self.idx_term(i)
        # a value just stored at this index
        if isinstance(c, Term) and c.op == "aset" and c.args[1] == it:
            return c.args[2]
        t = T("aget", c, it)
        if isinstance(i, SliceV) or (isinstance(it, Term) and it.op in ("sl",)) or self.rows(o):
            self.st.types.setdefault(t, ARRAY)
        return t

    def rows(self, o):
        return False

    def array_setitem(self, o, i, v):
        c = self.snap(o)
        self.set_array(o, T("aset", c, self.idx_term(i), self.snap(v)))

    def set_array(self, o, t):
        self.st.types.setdefault(t, ARRAY)
        self.st.cont[o] = t

    def native_getattr(self, kind, o, name):
        if kind == "array":
            if name in ("T", "real", "imag"):
                return self.ext_value("numpy.transpose" if name == "T" else "." + name, (o,))
            sh = self.shape_of(o) if name in ("shape", "ndim", "size") else None
            if sh is not None:
                if name == "shape":
                    return T("tuple", seq([one(x) for x in sh]))
                if name == "ndim":
                    return const(len(sh))
                r = const(1)
                for x in sh:
                    r = mul(r, x)
                return r
            if name in ("shape", "ndim", "size", "dtype"):
                t = T("attr", self.snap(o), name)
                if name in ("ndim", "size"):
                    self.st.types.setdefault(t, INT)
                if name == "shape":
                    self.st.types.setdefault(t, ("tuple", INT))
                return t
            if name == "__class__":
                return ExtV("numpy.ndarray")
            if not name.startswith("__") and name not in NDARRAY:
                self.raise_("AttributeError", name)
            return BoundV(BuiltinV("array." + name), o)
        if kind in ("num", "int", "float", "complex"):
            if name == "conjugate":
                return ProcV(lambda: conj(o))
            if name in ("real", "imag"):
                return T(name, o)
            if name == "bit_length":
                return ProcV(lambda: self.bitlen(o))
            if name == "__class__":
                return BuiltinV("int" if kind == "int" else "float")
            self.raise_("AttributeError", name)
        if kind in ("str", "list", "dict", "set", "tuple", "bytes") and name == "__class__":
            return BuiltinV(kind)
        if kind == "ext":
            t = T("attr", o, name)
            self.st.types.setdefault(t, ("ext",))
            return t
        if name == "__class__" and kind == "none":
            return ExtV("builtins.NoneType")
        if kind in ("list", "tuple", "dict", "set", "str", "none", "int", "bool", "enum", "RangeV", "GenV", "exc"):
            if kind == "exc" and name in ("__traceback__", "__cause__", "__context__"):
                return NONE
            if kind == "dict" and name in ("__contains__", "__getitem__", "__iter__", "__len__"):
                return None
            self.raise_("AttributeError", name)
        return None

    def ext_value_attr(self, o, name):
        """Attribute of a value about which nothing is known."""
        t = T("attr", o, name)
        return t

    def call_value(self, f, args, kwargs):
        """Call of an opaque value."""
        if isinstance(f, (Ref, Term)) and self.typ(f)[0] == "inst":
            m = self.find_attr(f, self.class_of(f), "__call__")
            if m is not None:
                return self.call(BoundV(m, f), args, kwargs)
            self.raise_("TypeError", "not callable")
        if isinstance(f, Term):
            ty = self.typ(f)
            if ty[0] == "class":
                return self.construct_unknown(f, args, kwargs)
            if f.op == "attr" or ty[0] == "ext" or f.op == "ext":
                return self.ext_call_term(f, args, kwargs)
            if ty[0] in ("any", "fn"):
                return self.opaque_call(f, args, kwargs)
            if ty[0] == "opt":
                if self.branch(T("isnone", f)):
                    self.raise_("TypeError", "'NoneType' object is not callable")
                return self.call_value(f, args, kwargs)
            if is_const(f):
                self.raise_("TypeError", "not callable")
        raise Unsupported(f"call of {f}")

    def argseq(self, args):
        out = []
        for a in args:
            if isinstance(a, StarV):
                out.extend(a.seq.args)
            else:
                out.append(one(self.snap(a) if isinstance(a, (Ref, Term)) else T("named", a)))
        return seq(out)

    def kwtuple(self, kwargs):
        return tuple(sorted((k, self.snap(v) if isinstance(v, (Ref, Term)) else T("named", v)) for k, v in kwargs.items()))

    def ext_call_term(self, f, args, kwargs):
        t = T("call", f, self.argseq(args), self.kwtuple(kwargs))
        self.st.types.setdefault(t, ("ext",))
        self.st.trace = self.st.trace + (one(t),)
        return t

    def opaque_call(self, f, args, kwargs):
        """A function supplied by the user: recorded, may raise, its result is unknown."""
        self.st.trace = self.st.trace + (one(T("ucall", f, self.argseq(args), self.kwtuple(kwargs))),)
        if self.user_calls_raise and self.branch(T("raises", f, const(len(self.st.trace) if not self.loops else 0))):
            raise PyRaise(ExcV(None, (), sym=f"raised by {show(f)}"), self.where())
        return T("ures", f, self.argseq(args))

    user_calls_raise = False

    def construct_unknown(self, cls, args, kwargs):
        if not (cls.op == "typeof" and self.possible(cls.args[0])):
            raise Unsupported("construction of an instance of an unknown class")
        src = cls.args[0]
        init = self.find_attr(src, cls, "__init__")
        c = self.class_of(src) if isinstance(src, Term) else cls
        if isinstance(c, ClassV):
            return self.instantiate(c, args, kwargs)
        if not isinstance(init, FuncV):
            raise Unsupported("construction of an instance of an unknown class")
        r = self.alloc("inst", cls)
        self.call(BoundV(init, r), args, kwargs)
        return r

    def m_InstDict_pop(self, d, name, default=None):
        if self.instdict_has(d, name):
            v = self.getitem(d, name)
            self.delattr(d.obj, cval(name))
            return v
        if default is None:
            self.raise_("KeyError", name)
        return default

    def m_InstDict_update(self, d, other=None, **k):
        if other is not None:
            if self.typ(other)[0] != "dict":
                raise Unsupported("update of an instance dictionary")
            for p in self.expand(self.content(other)).args:
                if p.op != "one" or not is_str_const(p.args[0].args[0]):
                    raise Unsupported("update of an instance dictionary")
                self.field_set(d.obj, cval(p.args[0].args[0]), p.args[0].args[1])
        for n, v in k.items():
            self.field_set(d.obj, n, v)
        return NONE

    def m_InstDict_get(self, d, name, default=NONE):
        return self.getitem(d, name) if self.instdict_has(d, name) else default

    def call_native(self, f, args, kwargs):
        if isinstance(f, ExtV):
            return self.ext_call(f, args, kwargs)
        if isinstance(f, Virtual):
            return self.virtual_call(f, args, kwargs)
        fn = self.natives.get(f.name)
        if fn is not None:
            if any(isinstance(a, StarV) for a in args):
                args = self.unstar(args)
            return fn(*args, **kwargs)
        if f.name.startswith("$"):
            return self.primitives[f.name[1:]](self, *args, **kwargs)
        if f.name.startswith("array."):
            return self.array_method(f.name[6:], args, kwargs)
        if f.name in BUILTIN_EXC:
            return ExcV(f.name, tuple(args))
        if f.name.startswith("object."):
            return self.object_method(f.name[7:], args, kwargs)
        if f.name.startswith("type."):
            return self.type_method(f.name[5:], args, kwargs)
        raise Unsupported(f"built-in {f.name}")

    def unstar(self, args):
        out = []
        for a in args:
            if isinstance(a, StarV):
                S = self.expand(a.seq)
                if not all(x.op == "one" for x in S.args):
                    raise Unsupported("symbolic * arguments of a built-in")
                out.extend(x.args[0] for x in S.args)
            else:
                out.append(a)
        return out

    def virtual_call(self, v, args, kwargs):
        o = args[0]
        if self.virtual_effect:
            self.virtual_effect(self, o, v.meth, args[1:], kwargs)
        return T("vcall", self.snap(o), v.meth, self.argseq(args[1:]), self.kwtuple(kwargs))

    def object_method(self, m, args, kwargs):
        if m in ("__init__", "__init_subclass__", "__exit__"):
            return NONE
        if m == "__setattr__":
            o = args[0]
            if isinstance(o, ClassV):
                return self.type_setattr(o, cval(args[1]), args[2])
            return self.inst_setattr(o, self.class_of(o), cval(args[1]), args[2])
        if m == "__eq__":
            return self.is_(args[0], args[1])
        if m == "__ne__":
            return self.negate(self.eq(args[0], args[1]))
        if m == "__hash__":
            return T("hash", self.snap(args[0]))
        if m in ("__repr__", "__str__"):
            return T("repr", self.snap(args[0]))
        if m == "__new__":
            r = self.alloc("inst", args[0])
            self.init_instance(r, args[0])
            return r
        if m == "__getattribute__":
            return self.getattr(args[0], cval(args[1]))
        raise Unsupported("object." + m)

    def type_method(self, m, args, kwargs):
        if m == "__setattr__":
            return self.type_setattr(args[0], cval(args[1]), args[2])
        if m == "__call__":
            return self.instantiate(args[0], list(args[1:]), kwargs)
        if m == "__init__":
            return NONE
        raise Unsupported("type." + m)

    def array_method(self, m, args, kwargs):
        o = args[0]
        if m in ("copy",):
            return self.alloc("array", content=self.snap(o))
        if m == "conjugate":
            m = "conj"
        if m == "conj":
            return self.ext_value("numpy.conj", args, kwargs)
        if m == "reshape":
            if len(args) > 2:
                args = [o, T("tuple", seq([one(a) for a in args[1:]]))]
            return self.ext_value(".reshape", args, kwargs)
        if m == "dot":
            return self.ext_value("@", args)
        if m == "transpose":
            return self.ext_value("numpy.transpose", args)
        if m in ("fill", "sort", "resize", "put"):
            raise Unsupported("in-place array method")
        if m in ("tolist", "item", "sum", "trace", "any", "all", "mean", "max", "min", "astype", "flatten", "ravel", "prod", "round", "squeeze", "diagonal"):
            return self.ext_value("." + m, args, kwargs)
        self.raise_("AttributeError", m)

    def ext_call(self, f, args, kwargs):
        p = NP_ALIAS.get(f.path, f.path)
        h = self.natives.get(p)
        if h is not None:
            return h(*(self.unstar(args)), **kwargs)
        if p == "@":
            return self.ext_value("@", self.unstar(args), kwargs)
        hook = self.ext_hooks.get(p) or self.ext_hooks.get(p.rsplit(".", 1)[0] + ".*")
        if hook is not None:
            return hook(self, p, args, kwargs)
        root = p.split(".")[0]
        if root in self.traced_roots:
            t = T("ext", p, self.argseq(args), self.kwtuple(kwargs))
            self.st.types.setdefault(t, ("ext",))
            self.st.trace = self.st.trace + (one(t),)
            return t
        if root in ("typing", "collections", "numpy") and p.split(".")[-1] in ("TypeVar", "NewType"):
            return ExtV(p)
        if root in ("pkgutil", "os", "sys", "pathlib", "importlib", "logging"):
            return T("ext", p, self.argseq(args), self.kwtuple(kwargs))
        if root in PURE_ROOTS:
            return self.ext_value(p, self.unstar(args), kwargs)
        raise Unsupported(f"external function {p}")

    ext_hooks = {}

    # ------------------------------------------------------------ built-in functions
    def n_len(self, v):
        return self.len_(v)

    def n_isinstance(self, v, c):
        return const(self.isinstance_(v, c))

    def n_issubclass(self, a, b):
        if isinstance(b, Term) and b.op == "tuple":
            return const(any(cval(self.n_issubclass(a, x)) for x in self.as_list(b)))
        if isinstance(a, ClassV):
            if isinstance(b, ClassV):
                return const(a.sub(b))
            return const(isinstance(b, BuiltinV) and b.name == "object" or self.inst_isa(a, b.name.split(".")[-1]))
        if isinstance(a, Term) and a.op == "typeof" and isinstance(b, ClassV):
            return const(self.isinstance_(a.args[0], b))
        if isinstance(a, BuiltinV):
            return const(a.name == getattr(b, "name", None))
        raise Unsupported("issubclass")

    def n_getattr(self, o, name, *default):
        if not is_str_const(name):
            if isinstance(o, (ExtV, ModV)):
                t = T("dynattr", o if isinstance(o, Term) else sym(o.name), name)
                self.st.types.setdefault(t, ("ext",) if isinstance(o, ExtV) else ANY)
                return self.dynattr(o, name, t)
            raise Unsupported("getattr with a symbolic name")
        if not default:
            return self.getattr(o, cval(name))
        if not self.hasattr_(o, cval(name)):
            return default[0]
        return self.getattr(o, cval(name))

    def dynattr(self, o, name, t):
        return t

    def n_hasattr(self, o, name):
        return const(self.hasattr_(o, cval(name)))

    def n_setattr(self, o, name, v):
        self.setattr(o, cval(name), v)
        return NONE

    def n_delattr(self, o, name):
        self.delattr(o, cval(name))
        return NONE

    def n_type(self, o, *a):
        if a:
            raise Unsupported("type() with three arguments")
        if isinstance(o, (Ref, Term)):
            k = self.typ(o)[0]
            if k == "inst":
                return self.class_of(o)
            if k in ("list", "dict", "set", "tuple", "int", "str", "bool"):
                return BuiltinV(k)
            if k == "none":
                return ExtV("builtins.NoneType")
            return T("typeof", o) if isinstance(o, Term) else BuiltinV(k)
        if isinstance(o, ClassV):
            return o.meta or BuiltinV("type")
        if isinstance(o, ExcV):
            return o.cls if isinstance(o.cls, ClassV) else BuiltinV(o.clsname())
        return ExtV("type:" + type(o).__name__)

    def n_repr(self, v):
        return self.call_repr(v, "__repr__")

    def call_repr(self, v, which):
        if isinstance(v, (Ref, Term)) and self.typ(v)[0] == "inst":
            cls = self.class_of(v)
            for w in ((which, "__repr__") if which == "__str__" else (which,)):
                f = self.find_attr(v, cls, w)
                if isinstance(f, FuncV):
                    return self.call(f, [v], {})
                if isinstance(f, Virtual):
                    return self.virtual_call(f, [v], {})
        return self.to_repr(v) if which == "__repr__" else self.to_str(v)

    def n_str(self, v=None):
        if v is None:
            return const("")
        return self.to_str(v)

    def n_int(self, v=const(0), base=None):
        if base is not None:
            if is_const(v) and is_const(base):
                try:
                    return const(int(cval(v), cval(base)))
                except ValueError:
                    self.raise_("ValueError", "int")
            t = T("toint", v, base)
            self.st.types.setdefault(t, INT)
            return t
        if isinstance(v, (Ref, Term)):
            if is_const(v):
                try:
                    return const(int(cval(v)))
                except (ValueError, TypeError) as e:
                    self.raise_(type(e).__name__, "int()")
            k = self.typ(v)[0]
            if k == "int":
                return v
            if k == "bool":
                t = T("b2i", v)
                return const(1) if self.truth(v) else const(0)
            if v.op in ("le", "lt", "eqn", "eq", "in", "not", "isnone", "isinst") if isinstance(v, Term) else False:
                return const(1) if self.truth(v) else const(0)
            t = T("toint", self.snap(v))
            self.st.types.setdefault(t, INT)
            return t
        raise Unsupported("int()")

    def n_float(self, v=const(0.0)):
        if is_const(v):
            try:
                return const(float(cval(v)))
            except (ValueError, TypeError) as e:
                self.raise_(type(e).__name__, "float()")
        return self.ext_value("float", (v,))

    def n_complex(self, *a):
        if all(is_const(x) for x in a):
            return const(complex(*[cval(x) for x in a]))
        return self.ext_value("complex", a)

    def n_bool(self, v=FALSE):
        return const(self.truth(v))

    def n_hash(self, v):
        if isinstance(v, (Ref, Term)) and self.typ(v)[0] == "inst":
            f = self.find_attr(v, self.class_of(v), "__hash__")
            if isinstance(f, FuncV):
                return self.call(f, [v], {})
        return T("hash", self.snap(v) if isinstance(v, (Ref, Term)) else T("named", v))

    def n_id(self, v):
        return T("identity", v if isinstance(v, (Ref, Term)) else T("named", v))

    def n_callable(self, v):
        if isinstance(v, (FuncV, BoundV, ClassV, BuiltinV, PartialV, ProcV)):
            return TRUE
        if isinstance(v, (Ref, Term)):
            k = self.typ(v)[0]
            if k == "inst":
                return const(self.find_attr(v, self.class_of(v), "__call__") is not None)
            if k in ("any", "fn"):
                return T("hasattr", v, "__call__")
            return FALSE
        return FALSE

    def n_list(self, it=None):
        return self.alloc("list", content=EMPTY if it is None else self.items(it))

    def n_tuple(self, it=None):
        if it is None:
            return T("tuple", EMPTY)
        if isinstance(it, Term) and self.typ(it)[0] == "tuple":
            return it
        return T("tuple", self.items(it))

    def n_set(self, it=None):
        r = self.alloc("set", content=EMPTY)
        if it is not None:
            for x in self.items(it).args:
                self.set_add(r, x)
        return r

    n_frozenset = n_set

    def n_dict(self, it=None, **kw):
        r = self.alloc("dict", content=T("dict"))
        if it is not None:
            if isinstance(it, (Ref, Term)) and self.typ(it)[0] == "dict":
                self.st.cont[r] = self.content(it)
            else:
                self.dict_from(r, it)
        for k, v in kw.items():
            self.dict_set(r, const(k), v)
        return r

    def n_range(self, *a):
        if len(a) == 1:
            return RangeV(const(0), a[0])
        if len(a) == 2:
            return RangeV(a[0], a[1])
        return RangeV(a[0], a[1], a[2])

    def n_enumerate(self, it, start=const(0)):
        return LazyV("enumerate", it, start)

    def n_zip(self, *its, strict=FALSE):
        return LazyV("zip", *its)

    def n_reversed(self, it):
        return LazyV("reversed", it)

    def n_map(self, f, *its):
        return LazyV("map", f, *its)

    def n_filter(self, f, it):
        return LazyV("filter", f, it)

    def n_sorted(self, it, key=None, reverse=FALSE):
        S = self.items(it)
        xs = [x.args[0] for x in S.args if x.op == "one"]
        if len(xs) == len(S.args):
            def kk(t):
                if isinstance(t, Ref):
                    t = self.snap(t)
                if is_const(t):
                    return cval(t)
                if isinstance(t, Term) and t.op == "tuple":
                    return tuple(kk(y.args[0]) for y in t.args[0].args)
                raise KeyError
            try:
                ks = xs if key is None or key is NONE else [self.call(key, [x], {}) for x in xs]
                order = [kk(x) for x in ks]
                ys = [xs[i] for i in sorted(range(len(xs)), key=lambda i: order[i], reverse=self.truth(reverse))]
                return self.alloc("list", content=seq([one(y) for y in ys]))
            except (KeyError, TypeError):
                pass
        t = T("sorted", S, T("named", key) if key is not None else NONE, reverse)
        return self.alloc("list", content=seq([splice(t)]))

    def n_any(self, it):
        return const(self.any_all(it, True))

    def n_all(self, it):
        return const(not self.any_all(it, False))

    def any_all(self, it, want):
        """Does some element have truth value `want`?"""
        def body(v):
            if self.truth(v) == want:
                raise StopYield("any", TRUE)
        try:
            self.iterate(it, body)
        except StopYield as s:
            if s.token != "any":
                raise
            return True
        return False

    def n_next(self, it, *default):
        if isinstance(it, (GenV, GenExpV, LazyV)):
            tok = ("next", self.tick())

            def body(v):
                raise StopYield(tok, v)
            try:
                self.iterate(it, body)
            except StopYield as s:
                if s.token != tok:
                    raise
                return s.value
            if default:
                return default[0]
            self.raise_("StopIteration")
        if isinstance(it, IterV):
            S = self.st.cont[it.ref]
            if not self.branch(self.rel(const(1), "<=", length(S))):
                if default:
                    return default[0]
                self.raise_("StopIteration")
            v = self.seq_at(S, const(0))
            self.st.cont[it.ref] = self.slice_(S, const(1), NONE, NONE)
            return v
        if isinstance(it, EnumV):
            v = self.enum_next(it)
            if v is not None:
                return v
            if default:
                return default[0]
            self.raise_("StopIteration")
        if isinstance(it, CountV):
            v = self.st.cont[it.ref]
            self.st.cont[it.ref] = add(v, it.step)
            return v
        if isinstance(it, Ref) and self.st.heap[it].kind == "inst":
            try:
                return self.call(self.getattr(it, "__next__"), [], {})
            except PyRaise as e:
                if default and e.exc.is_a("StopIteration"):
                    return default[0]
                raise
        if isinstance(it, Term):
            return self.ext_next(it, default)
        raise Unsupported("next()")

    def ext_next(self, it, default):
        raise Unsupported("next() of an opaque iterator")

    def n_iter(self, it):
        if isinstance(it, (GenV, GenExpV, IterV, LazyV)):
            return it
        return IterV(self.alloc("iter", content=self.items(it)))

    def n_sum(self, it, start=const(0)):
        acc = self.alloc("cell", content=start)

        def body(v):
            self.st.cont[acc] = self.binop(ast.Add(), self.st.cont[acc], v)

        self.iterate(it, body)
        return self.st.cont[acc]

    def minmax(self, name, a, kw):
        if len(a) == 1:
            S = self.items(a[0])
        else:
            S = seq([one(x) for x in a])
        if "key" in kw:
            return T("ext", name, S, ())
        if not S.args:
            if "default" in kw:
                return kw["default"]
            self.raise_("ValueError", f"{name}() arg is an empty sequence")
        xs = [x.args[0] for x in S.args if x.op == "one"]
        if len(xs) == len(S.args):
            # resolve pairwise where decidable
            best = xs[0]
            und = [best]
            for x in xs[1:]:
                keep = []
                drop = False
                for b in und:
                    d = self.decide_lit(self.rel(b, "<=", x)) if self.is_num(b) and self.is_num(x) else None
                    if d is True:
                        if name == "max":
                            continue
                        drop = True
                    elif d is False:
                        if name == "max":
                            drop = True
                        else:
                            continue
                    keep.append(b)
                und = keep + ([] if drop else [x])
            if len(und) == 1:
                return und[0]
            if len(und) <= 3 and len(xs) <= 4 and all(self.is_int(x) for x in und):
                a_ = und[0]
                for b_ in und[1:]:
                    le = self.branch(self.rel(a_, "<=", b_))
                    a_ = (b_ if le else a_) if name == "max" else (a_ if le else b_)
                return a_
            S = seq([one(x) for x in sorted(und, key=skey)])
        else:
            if "default" in kw:
                if not self.branch(self.rel(const(1), "<=", length(S))):
                    return kw["default"]
            else:
                self.guard("ValueError", self.rel(const(1), "<=", length(S)))
        t = T(name + "int", S)
        ty = self.elemtype(S)
        if ty[0] != "int":
            t = T(name + "num", S)
            self.st.types.setdefault(t, NUM)
        return t

    def n_max(self, *a, **kw):
        return self.minmax("max", a, kw)

    def n_min(self, *a, **kw):
        return self.minmax("min", a, kw)

    def n_abs(self, v):
        if is_num_const(v):
            return const(abs(cval(v)))
        return self.ext_value("numpy.abs" if self.typ(v)[0] == "array" else "abs", (v,))

    def n_round(self, v, *a):
        if is_num_const(v):
            return const(round(cval(v), *[cval(x) for x in a]))
        if not a and isinstance(v, Term) and self.is_int(v):
            return v
        t = T("ext", "round", seq([one(self.snap(v))]), ())
        self.st.types.setdefault(t, INT)
        return t

    def n_print(self, *a, **k):
        return NONE

    def n_vars(self, o):
        return self.getattr(o, "__dict__")

    def n_ord(self, v):
        return const(ord(cval(v))) if is_const(v) else T("ord", v)

    def n_chr(self, v):
        return const(chr(cval(v))) if is_const(v) else T("chr", v)

    def n_pow(self, a, b, *m):
        return self.binop(ast.Pow(), a, b)

    def n_divmod(self, a, b):
        return T("tuple", seq([one(self.binop(ast.FloorDiv(), a, b)), one(self.binop(ast.Mod(), a, b))]))

    def n_format(self, v, spec=const("")):
        return T("fmt", self.snap(v), spec) if spec != const("") else self.to_str(v)

    def n_super(self, cls, obj):
        return SuperV(cls, obj)

    def n_slice(self, *a):
        a = list(a)
        if len(a) == 1:
            a = [NONE] + a
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else NONE)

    def n_property(self, fget=None, fset=None, *a):
        return PropV("property", fget, fset)

    def n_object(self):
        r = self.alloc("obj0")
        return r

    def n_dir(self, o):
        raise Unsupported("dir")

    # functools, itertools, copy, warnings ...
    def n_copy_DOT_deepcopy(self, v, *a):
        if isinstance(v, (Ref, Term)) and self.typ(v)[0] == "inst":
            f = self.find_attr(v, self.class_of(v), "__deepcopy__")
            if isinstance(f, FuncV):
                return self.call(f, [v, self.alloc("dict", content=T("dict"))], {})
        return self.deep_copy(v, self.tick(), {})

    def n_copy_DOT_copy(self, v):
        if isinstance(v, Ref):
            h = self.st.heap[v]
            if h.kind == "inst":
                f = self.class_lookup(h.cls, "__copy__")
                if f is not None:
                    return self.call(BoundV(f, v), [], {})
            r = self.alloc(h.kind, h.cls)
            if v in self.st.cont:
                self.st.cont[r] = self.st.cont[v]
            for (o, f), x in list(self.st.fields.items()):
                if o == v:
                    self.st.fields[(r, f)] = x
            return r
        if isinstance(v, Term):
            k = self.typ(v)[0]
            if k in ("list", "seq"):
                return self.alloc("list", content=self.content(v))
            if k == "dict":
                return self.alloc("dict", content=self.content(v))
            if k == "inst" and self.is_register(v):
                return self.m_cyRegister_copy(v)
            if k in ("int", "str", "num", "tuple", "none"):
                return v
            if k == "inst":
                r = T("scopy", v, self.tick())
                self.st.types[r] = self.typ(v)
                raise Unsupported("shallow copy of an opaque object")
        raise Unsupported("copy.copy")

    def n_warnings_DOT_warn(self, *a, **k):
        if self.record_warnings:
            self.st.trace = self.st.trace + (one(T("warn")),)
        return NONE

    def n_itertools_DOT_count(self, start=const(0), step=const(1)):
        return CountV(self.alloc("cell", content=start), step)

    def concrete_items(self, v):
        S = self.expand(self.items(v))
        return [x.args[0] for x in S.args] if all(x.op == "one" for x in S.args) else None

    def tuples(self, rows):
        return T("tuple", seq([one(T("tuple", seq([one(x) for x in r]))) for r in rows]))

    def n_itertools_DOT_product(self, *its, repeat=const(1)):
        """Of iterables whose items are known one by one; otherwise an unknown sequence."""
        if len(its) == 1 and is_str_const(its[0]) and repeat != const(1):
            return self.enumeration("product", its[0], repeat)
        if is_int_const(repeat):
            if cval(repeat) < 0:
                self.raise_("ValueError", "repeat argument cannot be negative")
            xs = [self.concrete_items(i) for i in its]
            if all(x is not None for x in xs):
                n = 1
                for x in xs * max(cval(repeat), 0):
                    n *= len(x)
                if n <= 256:
                    import itertools
                    return self.tuples(itertools.product(*xs, repeat=cval(repeat)))
        return self.ext_value("itertools.product", its, {"repeat": repeat})

    def n_itertools_DOT_combinations_with_replacement(self, it, r):
        return self.enumeration("combinations_with_replacement", it, r)

    def enumeration(self, kind, letters, r):
        if not is_str_const(letters) or not self.is_num(r):
            raise Unsupported(f"itertools.{kind} of unknown letters")
        if self.branch(self.rel(r, "<", const(0))):
            self.raise_("ValueError", "r must be non-negative")
        return EnumV(kind, letters, r, self.alloc("cell", content=const(0)))

    def enum_next(self, e):
        """The next member (None at the end): members differ from each other."""
        pos = self.st.cont[e.ref]
        n = T("ncomb", e.kind, e.letters, e.r)
        self.st.types[n] = INT
        self.assume(self.rel(const(0), "<=", n), True)
        if e.kind in ("product", "combinations_with_replacement") and cval(e.letters) or self.decide(self.rel(e.r, "<=", const(len(cval(e.letters))))) is True:
            self.assume(self.rel(const(1), "<=", n), True)
        elif self.decide(self.rel(e.r, ">", const(len(cval(e.letters))))) is True:
            self.assume(self.rel(n, "<=", const(0)), True)
        if not self.branch(self.rel(pos, "<", n)):
            return None
        self.st.cont[e.ref] = add(pos, const(1))
        t = T("combo", e.kind, e.letters, e.r, pos)
        self.st.types[t] = ("tuple", STR)
        self.st.trace = self.st.trace + (one(t),)
        return t

    def n_itertools_DOT_combinations(self, it, r):
        if is_str_const(it):
            return self.enumeration("combinations", it, r)
        x = self.concrete_items(it)
        if x is None or not is_int_const(r) or len(x) > 8:
            return self.ext_value("itertools.combinations", (it, r))
        import itertools
        return self.tuples(itertools.combinations(x, cval(r)))

    def n_itertools_DOT_permutations(self, it, r=NONE):
        if is_str_const(it) and r is not NONE:
            return self.enumeration("permutations", it, r)
        x = self.concrete_items(it)
        if x is None or len(x) > 5 or not (r is NONE or is_int_const(r)):
            return self.ext_value("itertools.permutations", (it, r))
        import itertools
        return self.tuples(itertools.permutations(x, None if r is NONE else cval(r)))

    def n_itertools_DOT_chain(self, *its):
        return LazyV("chain", *its)

    def n_itertools_DOT_chain_DOT_from_iterable(self, it):
        if isinstance(it, (GenV, GenExpV, LazyV)) or not self._small(it):
            return LazyV("chainiter", it)
        return LazyV("chain", *self.as_list(it))

    def _small(self, it):
        if isinstance(it, Named) and not isinstance(it, ViewV):
            return False
        return all(x.op == "one" for x in self.items(it).args)

    def n_itertools_DOT_repeat(self, v, n):
        return self.binop(ast.Mult(), self.alloc("list", content=seq([one(v)])), n)

    def n_itertools_DOT_islice(self, it, *a):
        S = self.items(it)
        if len(a) == 1:
            S = self.slice_(S, const(0), a[0], NONE)
        else:
            S = self.slice_(S, a[0], a[1], NONE)
        return IterV(self.alloc("iter", content=S))

    def n_functools_DOT_partial(self, f, *a, **k):
        return PartialV(f, a, k)

    def n_contextlib_DOT_suppress(self, *a):
        return T("ctxmgr", "suppress", *a)

    def n_contextlib_DOT_nullcontext(self, *a):
        return T("ctxmgr", "null", *a)

    def n_typing_DOT_NamedTuple(self, name, fields):
        c = ClassV(cval(name), [], f"cls:{cval(name)}:{self.tick()}", "")
        c.kind = "namedtuple"
        c.node = None
        self.st.frames[c.fid] = {"$parent": None, "$kind": "class", "$mod": "", "$qual": cval(name), "$cls": c}
        c.ntfields = [cval(self.as_list(f)[0]) for f in self.as_list(fields)]
        return c

    def n_collections_DOT_namedtuple(self, name, fields, **k):
        c = ClassV(cval(name), [], f"cls:{cval(name)}:{self.tick()}", "")
        c.kind = "namedtuple"
        c.node = None
        self.st.frames[c.fid] = {"$parent": None, "$kind": "class", "$mod": "", "$qual": cval(name), "$cls": c}
        c.ntfields = cval(fields).replace(",", " ").split() if is_str_const(fields) else [cval(f) for f in self.as_list(fields)]
        return c

    def n_typing_DOT_TypeVar(self, *a, **k):
        return ExtV("typing.Any")

    def n_typing_DOT_cast(self, t, v):
        return v

    def n_enum_DOT_auto(self):
        return const(0)

    def n_numpy_DOT_conj(self, v):
        if self.typ(v)[0] in ("array", "any"):
            return self.ext_value("numpy.conj", (v,))
        return conj(v)

    def n_numpy_DOT_copy(self, v):
        return self.alloc("array", content=self.snap(v))

    def n_numpy_DOT_reshape(self, v, *a):
        return self.array_method("reshape", [v] + list(a), {})

    def n_numpy_DOT_linalg_DOT_norm(self, v, *a, **k):
        return self.ext_value("numpy.linalg.norm", (v,) + a, k)

    def n_dwave_DOT_gate_DOT_mixedproperty_DOT_mixedproperty(self, *a, **k):
        return self.make_mixed(*a, **k)

    def n_inspect_DOT_signature(self, f):
        """The parameters of a function, by name."""
        drop = 0
        if isinstance(f, BoundV):
            f, drop = f.func, 1
        if not isinstance(f, FuncV):
            raise Unsupported("signature of something else")
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][drop:] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + ([a.kwarg.arg] if a.kwarg else [])
        return SignatureV(f, self.alloc("dict", content=T("dict", *[one(pair(const(x), T("parameter", x))) for x in names])))

    def make_mixed(self, *a, **k):
        p = PropV("mixed", a[0] if a else None)
        p.self_required = k.get("self_required", FALSE)
        if not a:
            p.kind = "mixedfactory"
        return p

    # ------------------------------------------------------------ list methods
    def m_list_append(self, o, v):
        self.set_content(o, seq(self.content(o).args + (one(v),)))
        return NONE

    def m_list_extend(self, o, it):
        def body(v):
            self.set_content(o, seq(self.content(o).args + (one(v),)))
        if isinstance(it, (GenV, GenExpV)) or (isinstance(it, LazyV) and it.kind in ("map", "filter", "chainiter")):
            self.iterate(it, body)
        else:
            self.set_content(o, seq(self.content(o).args + self.items(it).args))
        return NONE

    def m_list_insert(self, o, i, v):
        S = self.content(o)
        n = length(S)
        i2 = self.clamp(i, n)
        a = self.slice_(S, const(0), i2, NONE)
        b = self.slice_(S, i2, NONE, NONE)
        self.set_content(o, seq(a.args + (one(v),) + b.args))
        return NONE

    def m_list_pop(self, o, i=const(-1)):
        S = self.expand(self.content(o))
        n = length(S)
        self.guard("IndexError", self.rel(const(1), "<=", n))
        i = self.index_norm(i, n)
        v = self.seq_at(S, i)
        if S.args and S.args[-1].op == "one" and i == sub(n, const(1)):
            self.set_content(o, T("seq", *S.args[:-1]))
        else:
            self.seq_del(o, S, i)
        return v

    def m_list_remove(self, o, v):
        S = self.content(o)
        i = self.seq_index(v, S)
        if i is None:
            self.raise_("ValueError", "list.remove(x): x not in list")
        self.seq_del(o, S, i)
        return NONE

    def m_list_index(self, o, v, *a):
        if a:
            raise Unsupported("index with bounds")
        i = self.seq_index(v, self.items(o))
        if i is None:
            self.raise_("ValueError", "not in list")
        return i

    def m_list_clear(self, o):
        self.set_content(o, EMPTY)
        return NONE

    def m_list_copy(self, o):
        return self.alloc("list", content=self.content(o))

    def m_list_count(self, o, v):
        acc = const(0)
        S = self.items(o)
        if not all(x.op == "one" for x in S.args):
            return T("count", self.snapseq(S), self.snap(v))
        for x in S.args:
            if self.branch(self.eq(x.args[0], v)):
                acc = add(acc, const(1))
        return acc

    def m_list_reverse(self, o):
        self.set_content(o, self.reverse_segs(self.content(o)))
        return NONE

    def m_list_sort(self, o, **k):
        r = self.n_sorted(o, **k)
        self.set_content(o, self.content(r))
        return NONE

    def m_list_len(self, o):
        return self.len_(o)

    def m_list_contains(self, o, v):
        return self.contains(o, v)

    def m_list_getitem(self, o, i):
        return self.getitem(o, i)

    def m_list_iter(self, o):
        return self.n_iter(o)

    # ------------------------------------------------------------ dict methods
    def m_dict_items(self, d):
        return ViewV("items", d)

    def m_dict_keys(self, d):
        return ViewV("keys", d)

    def m_dict_values(self, d):
        return ViewV("values", d)

    def m_dict_get(self, d, k, default=NONE):
        f = self.dict_find(d, k)
        return default if f is None else f[2]

    def m_dict_pop(self, d, k, *default):
        if self.dict_find(d, k) is None:
            if default:
                return default[0]
            self.raise_("KeyError", "key")
        return self.dict_del(d, k)

    def m_dict_setdefault(self, d, k, v=NONE):
        f = self.dict_find(d, k)
        if f is not None:
            return f[2]
        self.dict_set(d, k, v)
        return v

    def m_dict_update(self, d, o=None, **kw):
        if o is not None:
            self.dict_update(d, o)
        for k, v in kw.items():
            self.dict_set(d, const(k), v)
        return NONE

    def m_dict_clear(self, d):
        self.set_content(d, T("dict"))
        return NONE

    def m_dict_copy(self, d):
        return self.alloc("dict", content=self.content(d))

    def m_dict_contains(self, d, k):
        return const(self.dict_find(d, k) is not None)

    # ------------------------------------------------------------ set methods
    def m_set_add(self, s, v):
        self.set_add(s, one(v))
        return NONE

    def m_set_update(self, s, *its):
        for it in its:
            for x in self.items(it).args:
                self.set_add(s, x)
        return NONE

    def m_set_clear(self, s):
        self.set_content(s, EMPTY)
        return NONE

    def m_set_pop(self, s):
        c = self.content(s)
        if not self.branch(self.rel(const(1), "<=", length(c))):
            self.raise_("KeyError", "pop from an empty set")
        if all(x.op == "one" for x in c.args) and len(c.args) <= 6:
            i = self.choose(len(c.args))
            self.set_content(s, T("seq", *(c.args[:i] + c.args[i + 1:])))
            return c.args[i].args[0]
        t = T("setpick", c)
        self.set_content(s, seq([splice(T("setless", c))]))
        return t

    def m_set_discard(self, s, v):
        c = self.content(s)
        for i, x in enumerate(c.args):
            if x.op == "one" and self.branch(self.eq(x.args[0], v)):
                self.set_content(s, T("seq", *(c.args[:i] + c.args[i + 1:])))
                return NONE
        if all(x.op == "one" for x in c.args):
            return NONE
        raise Unsupported("set.discard")

    def m_set_remove(self, s, v):
        if not self.truth(self.contains(s, v)):
            self.raise_("KeyError", "key")
        return self.m_set_discard(s, v)

    def m_set_isdisjoint(self, s, it):
        A, B = self.items(s), self.items(it)
        if all(x.op == "one" for x in A.args + B.args):
            for x in A.args:
                for y in B.args:
                    if self.branch(self.eq(x.args[0], y.args[0])):
                        return FALSE
            return TRUE
        return T("truth", T("isdisjoint", self.snapseq(A), self.snapseq(B)))

    def m_set_issubset(self, s, it):
        for x in self.items(s).args:
            if x.op != "one":
                return T("truth", T("issubset", self.snapseq(self.items(s)), self.snapseq(self.items(it))))
            if not self.truth(self.contains(it, x.args[0])):
                return FALSE
        return TRUE

    def m_set_union(self, s, *its):
        r = self.alloc("set", content=self.content(s))
        self.m_set_update(r, *its)
        return r

    def m_set_copy(self, s):
        return self.alloc("set", content=self.content(s))

    def m_set_difference(self, s, o):
        return self.binop(ast.Sub(), s, o)

    def m_set_intersection(self, s, o):
        return self.binop(ast.BitAnd(), s, o)

    # ------------------------------------------------------------ str methods
    def m_str_join(self, sep, it):
        if isinstance(it, Term) and it.op == "combo" and sep == const(""):
            t = T("joined", *it.args)
            self.st.types[t] = STR
            return t
        S = self.items(it)
        return join(sep, self.snapseq(S))

    def m_str_format(self, s, *a, **k):
        if is_const(s):
            import string
            parts, auto = [], 0
            try:
                for lit, field, spec, conv in string.Formatter().parse(cval(s)):
                    if lit:
                        parts.append(const(lit))
                    if field is not None:
                        if field == "":
                            v = a[auto]
                            auto += 1
                        elif field.isdigit():
                            v = a[int(field)]
                        elif field.isidentifier():
                            v = k[field]
                        else:
                            raise Unsupported("format field")
                        if spec:
                            parts.append(T("fmt", self.snap(v), const(spec)))
                        else:
                            parts.append(self.to_repr(v) if conv == "r" else self.to_str(v))
            except (IndexError, KeyError):
                self.raise_("IndexError", "format")
            return cat(parts)
        return T("fmt", self.argseq(a), s)

    def _str1(self, name, s, *a):
        if is_const(s) and all(is_const(x) for x in a):
            r = getattr(cval(s), name)(*[cval(x) for x in a])
            if isinstance(r, list):
                return self.alloc("list", content=seq([one(const(x)) for x in r]))
            return const(r)
        if name in ("startswith", "endswith") and isinstance(s, Term) and s.op == "cat" and len(a) == 1 and is_str_const(a[0]):
            e = s.args[0 if name == "startswith" else -1]
            if is_str_const(e):
                x, y = cval(e), cval(a[0])
                if getattr(x, name)(y):
                    return TRUE
                n = min(len(x), len(y))
                if (x[:n] != y[:n]) if name == "startswith" else (x[len(x) - n:] != y[len(y) - n:]):
                    return FALSE
        t = T("strm", name, s, seq([one(x) for x in a]))
        if name in ("isdigit", "startswith", "endswith", "isidentifier"):
            return T("truth", t)
        if name in ("split", "splitlines"):
            self.st.types.setdefault(t, ("list", STR))
        else:
            self.st.types.setdefault(t, STR)
        return t

    def m_str_lower(self, s):
        return const(cval(s).lower()) if is_const(s) else T("lower", s)

    def m_str_upper(self, s):
        return const(cval(s).upper()) if is_const(s) else T("upper", s)

    def m_str_strip(self, s, *a):
        if not a:
            return self.strip_str(s)
        return self._str1("strip", s, *a)

    def strip_str(self, s):
        if is_const(s):
            return const(cval(s).strip())
        return T("strip", s)

    def m_str_isdigit(self, s):
        return self._str1("isdigit", s)

    def m_str_rstrip(self, s, *a):
        return self._str1("rstrip", s, *a)

    def m_str_lstrip(self, s, *a):
        return self._str1("lstrip", s, *a)

    def m_str_startswith(self, s, *a):
        return self._str1("startswith", s, *a)

    def m_str_endswith(self, s, *a):
        return self._str1("endswith", s, *a)

    def m_str_replace(self, s, *a):
        return self._str1("replace", s, *a)

    def m_str_split(self, s, *a):
        return self._str1("split", s, *a)

    def m_str_splitlines(self, s, *a):
        return self._str1("splitlines", s, *a)

    def m_str_encode(self, s, *a):
        return self._str1("encode", s, *a)

    def m_str_capitalize(self, s):
        return self._str1("capitalize", s)

    def m_str_title(self, s):
        return self._str1("title", s)

    def m_str_isidentifier(self, s):
        return self._str1("isidentifier", s)

    def m_str_index(self, s, x):
        if is_const(s) and is_const(x):
            return const(cval(s).index(cval(x)))
        t = T("strm", "index", s, seq([one(x)]))
        self.st.types.setdefault(t, INT)
        return t

    def m_str_count(self, s, x):
        if is_const(s) and is_const(x):
            return const(cval(s).count(cval(x)))
        t = T("strm", "count", s, seq([one(x)]))
        self.st.types.setdefault(t, INT)
        return t

    # ------------------------------------------------------------ the register base class (modelled; C10 analyses its source)
    def m_cyRegister_init(self, r, it=NONE):
        self.st.cont[r] = EMPTY
        if it is NONE:
            return NONE
        if isinstance(it, (Ref, Term)) and self.is_register_safe(it):
            self.st.cont[r] = self.content(it)
            return NONE
        self.reg_extend(r, it, True)
        return NONE

    def is_register_safe(self, it):
        return self.typ(it)[0] == "inst" and self.is_register(it)

    def m_cyRegister_contains(self, r, v):
        return const(self.reg_index(r, v) is not None)

    def reg_index(self, r, v):
        return self.seq_index(v, self.expand(self.content(r)))

    def m_cyRegister_count(self, r, v):
        return const(1) if self.reg_index(r, v) is not None else const(0)

    def m_cyRegister_index(self, r, v, permissive=FALSE):
        if self.truth(permissive):
            self.m_cyRegister_append(r, v, TRUE)
        S = self.expand(self.content(r))
        if not self.caught("ValueError") and len(S.args) == 1 and S.args[0].op != "one":
            self.guard("ValueError", self.seg_in_lit(v, S.args[0]))
        i = self.seq_index(v, S)
        if i is None:
            self.raise_("ValueError", "unknown register item")
        return i

    def m_cyRegister_getitem(self, r, i):
        if isinstance(i, SliceV):
            cls = self.class_of(r)
            new = self.call(cls, [], {}) if isinstance(cls, ClassV) else None
            if new is None:
                raise Unsupported("slice of a register")
            self.st.cont[new] = self.slice_(self.content(r), i.lo, i.hi, i.step)
            return new
        if isinstance(i, (Ref, Term)) and self.typ(i)[0] not in ("int", "bool", "any"):
            self.raise_("TypeError", "register index")
        return self.elem(r, self.expand(self.content(r)), i)

    def m_cyRegister_iter(self, r):
        return self.n_iter(self.alloc("list", content=self.content(r)))

    def m_cyRegister_len(self, r):
        return length(self.content(r))

    def m_cyRegister_append(self, r, v=NONE, permissive=FALSE):
        if v is NONE:
            raise Unsupported("register append without item")
        S = self.expand(self.content(r))
        if self.truth(permissive):
            if self.seq_in(v, S):
                return v
        else:
            for s in S.args:
                self.guard("ValueError", self.negate(self.seg_in_lit(v, s)))
        self.st_set_reg(r, seq(S.args + (one(v),)))
        return v

    def st_set_reg(self, r, c):
        self.set_content(r, c)

    def m_cyRegister_extend(self, r, it, permissive=FALSE):
        self.reg_extend(r, it, self.truth(permissive))
        return NONE

    def reg_extend(self, r, it, permissive):
        perm = const(permissive)
        if isinstance(it, (Ref, Term)) and self.typ(it)[0] in ("list", "tuple", "seq", "inst", "dict", "opt") and not (
                self.typ(it)[0] == "inst" and not self.is_register_safe(it)):
            S = self.items(it)
            if self.distinct_new(S, self.content(r), permissive):
                self.st_set_reg(r, seq(self.content(r).args + S.args))
                return
            self.loop_over(S, lambda v: self.m_cyRegister_append(r, v, perm))
            return
        if isinstance(it, (GenV, GenExpV, LazyV, IterV, ViewV, RangeV)):
            S = self.items(it) if not isinstance(it, (GenV, GenExpV)) else self.collect(it)
            if self.distinct_new(S, self.content(r), permissive):
                self.st_set_reg(r, seq(self.content(r).args + S.args))
                return
            self.loop_over(S, lambda v: self.m_cyRegister_append(r, v, perm))
            return
        self.iterate(it, lambda v: self.m_cyRegister_append(r, v, perm))

    def distinct_new(self, S, C, permissive):
        """All elements of S are distinct and none is in C: known for freshly made objects and registers of one circuit."""
        if not S.args:
            return True
        for s in S.args:
            if s.op == "one":
                if len(S.args) > 1:
                    return False
                for c in C.args:
                    if c.op == "one" or self.seg_in_lit(s.args[0], c) != FALSE:
                        return False
            elif s.op == "many":
                tr = s.args[2]
                if not (tr.op == "leaf" and len(tr.args) == 1 and tr.args[0].op == "one"):
                    return False
                v = tr.args[0].args[0]
                if not (isinstance(v, Term) and v.op == "obj"):
                    return False
            elif s.op == "splice":
                X = s.args[0]
                if not self.distinct_seq(X):
                    return False
                if not C.args:
                    continue
                if self.caught("ValueError") and not permissive:
                    return False
                if not self.disjoint_known(X, C):
                    return False
        return True

    def disjoint_known(self, X, C):
        """Registers held by one circuit share no item (established by C09)."""
        if not (isinstance(X, Term) and X.op == "items"):
            return False

        def reg_of(t):
            return t.op == "at" and isinstance(t.args[0], Term) and t.args[0].op == "vals"

        def ok(c):
            if c.op == "one":
                return isinstance(c.args[0], Term) and c.args[0].op == "obj"
            if c.op == "splice":
                Y = c.args[0]
                if Y in self.opt_phis:
                    self.opt_used.add(Y)
                    return True
                return isinstance(Y, Term) and Y.op == "items" and Y != X
            return all(ok(s) for s in tree_segs(c.args[2]))

        return all(ok(c) for c in C.args)

    def m_cyRegister_remove(self, r, v):
        S = self.content(r)
        i = self.seq_index(v, S)
        if i is None:
            self.raise_("ValueError", "unknown register item")
        self.seq_del(r, S, i)
        return NONE

    def m_cyRegister_clear(self, r):
        self.set_content(r, EMPTY)
        return NONE

    def m_cyRegister_pop(self, r):
        return self.m_list_pop(r)

    def m_cyRegister_copy(self, r):
        cls = self.class_of(r)
        new = self.alloc("inst", cls)
        self.st.cont[new] = self.content(r)
        return new

    def m_cyRegister_is_range(self, r):
        raise Unsupported("_is_range")


def ite_bool(l, a, b):
    if l == TRUE:
        return a
    if l == FALSE:
        return b
    if l.op == "not":
        return ite(l.args[0], b, a)
    return ite(l, a, b)


def tree_segs(t):
    if t.op == "leaf":
        return list(t.args)
    return tree_segs(t.args[1]) + tree_segs(t.args[2])


METHODS = {
    "list": "append extend insert pop remove index clear copy count reverse sort __len__ __contains__ __getitem__ __iter__".split(),
    "dict": "items keys values get pop setdefault update clear copy __contains__".split(),
    "set": "add update clear pop discard remove isdisjoint issubset union copy difference intersection".split(),
    "str": "join format lower upper strip isdigit rstrip lstrip startswith endswith replace split splitlines encode capitalize title isidentifier index count".split(),
    "cyRegister": "__init__ __contains__ count index __getitem__ __iter__ __len__ _append _extend _remove _clear _pop copy __copy__ _is_range".split(),
}
Natives.m_cyRegister___copy__ = Natives.m_cyRegister_copy
for _k in ("list", "dict", "set", "str", "cyRegister"):
    for _m in METHODS[_k]:
        _s = f"m_{_k}_{_m.strip('_')}"
        if hasattr(Natives, _s):
            setattr(Natives, f"m_{_k}_{_m}", getattr(Natives, _s))


def ones_only(t):
    if t.op == "leaf":
        return all(x.op == "one" for x in t.args)
    return ones_only(t.args[1]) and ones_only(t.args[2])
