"""Types, facts, attribute access and equality of abstract values."""
from __future__ import annotations
import ast
import math
from fractions import Fraction
from .terms import *
from .values import *
from .interp import *

ANY = ("any",)
INT = ("int",)
NUM = ("num",)
STR = ("str",)
BOOL = ("bool",)
ARRAY = ("array",)


def Opt(t):
    return ("opt", t)


def Seq(t):
    return ("seq", t)


def List(t):
    return ("list", t)


def Inst(c):
    return ("inst", c)


INT_OPS = {"len", "index", "first", "count", "ord", "bitlen", "pow2", "floordiv", "imod", "minint", "maxint", "idx"}


class Virtual(Named):
    """A method with many overriding definitions, called on an instance of unknown class."""

    def __init__(self, meth):
        self.meth = meth
        self.name = "virtual:" + meth

    def __hash__(self):
        return hash(("virt", self.meth))

    def __eq__(self, o):
        return isinstance(o, Virtual) and o.meth == self.meth


class InstDict(Named):
    def __init__(self, obj):
        self.obj, self.name = obj, "__dict__"


EXCLUSIVE = {"int", "bool", "float", "complex", "str", "bytes", "list", "tuple", "dict", "set"}  # no object is of two of these, but bool and int


class Objects(InterpBase):
    # ------------------------------------------------------------ types
    def __init__(self):
        super().__init__()
        self.fieldtypes = {}     # (class name, field) -> type
        self.clsattrtypes = {}   # (class name, attribute) -> type
        self.distinct_terms = set()
        self.inline_eq = set()   # class names whose __eq__ is analysed rather than abstracted
        self.virtuals = set()
        self.virtual_effect = None
        self.regelem = {}

    def typ(self, t):
        st = self.st
        if t in st.types:
            ty = st.types[t]
        else:
            ty = self._typ(t)
        if ty[0] == "opt":
            lit = T("isnone", t)
            f = st.facts.get(lit)
            if f is None and "foralls" in st.facts:
                f = self.decide_forall(lit)
                if f is not None:
                    st.facts[lit] = f
            if f is False:
                return ty[1]
            if f is True:
                return ("none",)
        if ty == ANY or ty[0] == "inst":
            f = st.facts.get(("cls", t))
            if f:
                best = ty[1] if ty[0] == "inst" else None
                for c in f[0]:
                    if isinstance(c, ClassV) and (best is None or (c.sub(best))):
                        best = c
                if best is not None:
                    return ("inst", best)
                for c in f[0]:
                    if c in ("int", "str", "bool", "array"):
                        return (c,)
                    if c in ("float", "complex", "Number"):
                        return NUM
                    if c == "list":
                        return ("list", ANY)
                    if c == "tuple":
                        return ("tuple", ANY)
                    if c == "Sequence":
                        return ("seq", ANY)
        return ty

    def _typ(self, t):
        if isinstance(t, Ref):
            h = self.st.heap[t]
            if h.kind == "inst":
                return ("inst", h.cls) if isinstance(h.cls, ClassV) else ("inst", self.st.types.get(h.cls, self._typ(h.cls))[1])
            return (h.kind, ANY, ANY)
        if not isinstance(t, Term):
            return ANY
        o = t.op
        if o == "const":
            v = cval(t)
            if v is None:
                return ("none",)
            if isinstance(v, bool):
                return BOOL
            if isinstance(v, int):
                return INT
            if isinstance(v, str):
                return STR
            if isinstance(v, bytes):
                return ("bytes",)
            return NUM
        if o in ("lin", "mul"):
            xs = [x for x, _ in t.args[0]] if o == "lin" else t.args
            cs = ([c for _, c in t.args[0]] + [t.args[1]]) if o == "lin" else []
            if all(self.typ(x)[0] in ("int", "bool") for x in xs) and all(isinstance(c, int) for c in cs):
                return INT
            return NUM
        if o in ("cat", "join", "str", "fold", "repr", "lower", "upper", "strip", "fmt", "clsname"):
            return STR
        if o in INT_OPS or o in ("bv", "sum"):
            return INT
        if o == "tuple":
            S = t.args[0]
            return ("tuple", self.elemtype(S))
        if o in ("list", "setv"):
            return ("list", self.elemtype(t.args[0]))
        if o == "dict":
            return ("dict", ANY, ANY)
        if o == "seq":
            return ("seq", self.elemtype(t))
        if o == "at":
            ty = self.typ(t.args[0])
            if ty[0] in ("seq", "list", "tuple", "set"):
                return ty[1]
            if ty[0] == "inst":
                return self.regelem.get(ty[1].name, ANY)
            if ty[0] == "str":
                return STR
            return ANY
        if o == "items":
            ty = self.typ(t.args[0])
            if ty[0] == "inst":
                for c in ty[1].mro:
                    if c.name in self.regelem:
                        return ("seq", self.regelem[c.name])
            return ("seq", ANY)
        if o == "keys":
            ty = self.typ(t.args[0])
            return ("seq", ty[1] if ty[0] == "dict" else ANY)
        if o == "vals":
            ty = self.typ(t.args[0])
            return ("seq", ty[2] if ty[0] == "dict" else ANY)
        if o == "get":
            ty = self.typ(t.args[0])
            return ty[2] if ty[0] == "dict" else ANY
        if o in ("fld", "fldu"):
            ty = self.typ(t.args[0])
            if ty[0] == "inst":
                for c in ty[1].mro:
                    r = self.fieldtypes.get((c.name, t.args[1]))
                    if r:
                        return r
            return ANY
        if o == "clsattr":
            ty = self.typ(t.args[0])
            if ty[0] == "class":
                for c in ty[1].mro:
                    r = self.clsattrtypes.get((c.name, t.args[1]))
                    if r:
                        return r
            return ANY
        if o == "typeof":
            ty = self.typ(t.args[0])
            return ("class", ty[1]) if ty[0] == "inst" else ANY
        if o == "dcopy":
            return self.typ(t.args[0])
        if o == "obj":
            c = t.args[0]
            if isinstance(c, ClassV):
                return ("inst", c)
            cy = self.typ(c)
            return ("inst", cy[1]) if cy[0] == "class" else ANY
        if o == "llref":
            return Inst(self.st.frames[self.modules["pyqir"].fid]["Reference"])
        if o == "enum":
            return ("enum",)
        if o == "ntup":
            return ("inst", t.args[0])
        if o in ("array", "ext") and o == "array":
            return ARRAY
        if o in ("slice", "slicex"):
            ty = self.typ(t.args[0])
            return ty
        if o == "vprop":
            return self.virtual_types.get(t.args[1], ANY)
        if o == "vcall":
            return self.virtual_types.get(t.args[1], ANY)
        if o == "conj":
            return NUM
        if o == "ext":
            return self.ext_types.get(t.args[0], ANY)
        if o == "bin":
            if any(self.typ(x)[0] == "array" for x in t.args[1:]):
                return ARRAY
            return NUM
        if o == "lastval":
            return self.typ(t.args[3]) if not isinstance(t.args[3], Named) else ANY
        return ANY

    virtual_types = {}
    ext_types = {}

    def elemtype(self, S):
        ty = None
        for x in S.args:
            if x.op == "one":
                e = self.typ(x.args[0])
            elif x.op == "splice":
                e = self.typ(x.args[0])
                e = e[1] if e[0] in ("seq", "list", "tuple", "set") else ANY
            else:
                tr = x.args[2]
                e = ANY
                if tr.op == "leaf" and len(tr.args) >= 1:
                    e = self.elemtype(T("seq", *tr.args))
            if ty is None:
                ty = e
            elif ty != e:
                return ANY
        return ty or ANY

    def is_int(self, t):
        return self.typ(t)[0] in ("int", "bool")

    def is_num(self, t):
        return self.typ(t)[0] in ("int", "bool", "num")

    # ------------------------------------------------------------ numeric facts
    def rel(self, a, op, b):
        """Literal for a op b, canonical; TRUE/FALSE when constant."""
        if op == ">":
            return self.rel(b, "<", a)
        if op == ">=":
            return self.rel(b, "<=", a)
        d, c = linparts(sub(a, b))
        if any(isinstance(k, complex) for k in d.values()) or isinstance(c, complex):
            return T("cmp", op, a, b)
        if not d:
            return const((c <= 0) if op == "<=" else (c < 0) if op == "<" else (c == 0))
        ints = all(self.is_int(x) for x in d) and all(isinstance(k, int) for k in d.values()) and isinstance(c, int)
        items = sorted(d.items(), key=lambda p: skey(p[0]))
        sgn = 1 if items[0][1] > 0 else -1
        if ints:
            g = 0
            for _, k in items:
                g = math.gcd(g, k)
            L = self._form(items, sgn, g)
            if op == "==":
                if c % g:
                    return FALSE
                return T("eqn", L, (-c // g) * sgn)
            bound = -c if op == "<=" else -c - 1        # sum <= bound
            if sgn > 0:
                return T("le", L, bound // g)
            # -L*g <= bound  <=>  L >= ceil(-bound/g)  <=> not (L <= that-1)
            return T("not", T("le", L, -(bound // g) - 1))
        k0 = abs(items[0][1])
        items2 = [(x, Fraction(k).limit_denominator(10**12) / Fraction(k0).limit_denominator(10**12)) for x, k in items]
        cc = Fraction(c).limit_denominator(10**12) / Fraction(k0).limit_denominator(10**12)
        L = self._form(items2, sgn, 1)
        if op == "==":
            return T("eqn", L, -cc * sgn)
        if sgn > 0:
            return T("le" if op == "<=" else "lt", L, -cc)
        return T("not", T("lt" if op == "<=" else "le", L, cc))

    def _form(self, items, sgn, g):
        r = const(0)
        for x, k in items:
            kk = k * sgn
            kk = kk // g if isinstance(kk, int) else kk / g
            if isinstance(kk, Fraction) and kk.denominator == 1:
                kk = int(kk)
            r = add(r, scale(x, kk))
        return r

    def rel_eq(self, a, b):
        return self.rel(a, "==", b)

    def single_bounds(self, x):
        b = self.st.num.get(x)
        lo, hi = (b[0], b[1]) if b else (None, None)
        if isinstance(x, Term) and x.op in ("len", "index", "first", "pow2", "sum", "bitlen"):
            m = 1 if x.op == "pow2" else 0
            if x.op == "len" and x.args[0].op == "fld":
                for h, pat, mn, *mx in self.st.facts.get("minlen", ()):
                    if pat.args[1] == x.args[0].args[1] and match_term(pat, x.args[0], bv(h), {}):
                        m = max(m, mn)
                        if mx:
                            hi = mx[0] if hi is None else min(hi, mx[0])
            lo = m if lo is None else max(lo, m)
        if isinstance(x, Term) and x.op == "imod" and is_const(x.args[1]) and isinstance(cval(x.args[1]), int) and cval(x.args[1]) > 0:
            lo = 0 if lo is None else max(lo, 0)
            hi = cval(x.args[1]) - 1 if hi is None else min(hi, cval(x.args[1]) - 1)
        return lo, hi

    def bounds(self, L):
        lo, hi = self.single_bounds(L)
        d, c = linparts(L)
        if L.op == "lin":
            slo, shi = c, c
            for x, k in d.items():
                a, b = self.single_bounds(x)
                if k < 0:
                    a, b = b, a
                slo = None if slo is None or a is None else slo + k * a
                shi = None if shi is None or b is None else shi + k * b
            if slo is not None:
                lo = slo if lo is None else max(lo, slo)
            if shi is not None:
                hi = shi if hi is None else min(hi, shi)
        # one stored form plus the rest, term by term
        for A, (alo, ahi, _) in self.st.num.items():
            if A is L or A.op != "lin":
                continue
            for sg in (1, -1):
                rest = sub(L, scale(A, sg))
                rd, rc = linparts(rest)
                if len(rd) > 2 or len(rd) >= max(len(d), 1) + 1:
                    continue
                rlo, rhi = rc, rc
                for x, k in rd.items():
                    a, b = self.single_bounds(x)
                    if k < 0:
                        a, b = b, a
                    rlo = None if rlo is None or a is None else rlo + k * a
                    rhi = None if rhi is None or b is None else rhi + k * b
                xlo, xhi = (alo, ahi) if sg > 0 else (None if ahi is None else -ahi, None if alo is None else -alo)
                if xlo is not None and rlo is not None:
                    lo = xlo + rlo if lo is None else max(lo, xlo + rlo)
                if xhi is not None and rhi is not None:
                    hi = xhi + rhi if hi is None else min(hi, xhi + rhi)
        if len(d) == 2 and sorted(d.values()) == [-1, 1]:
            x, = [v for v, k in d.items() if k == 1]
            y, = [v for v, k in d.items() if k == -1]
            h = self.chain(x, y)
            if h is not None:
                hi = h + c if hi is None else min(hi, h + c)
            l = self.chain(y, x)
            if l is not None:
                lo = c - l if lo is None else max(lo, c - l)
        return lo, hi

    def chain(self, x, y):
        """Least known upper bound of x - y through chains of stored differences."""
        edges = []
        for A, (alo, ahi, _) in self.st.num.items():
            if A.op != "lin":
                continue
            ad, ac = linparts(A)
            if len(ad) != 2 or sorted(ad.values()) != [-1, 1]:
                continue
            u, = [v for v, k in ad.items() if k == 1]
            w, = [v for v, k in ad.items() if k == -1]
            if ahi is not None:
                edges.append((w, u, ahi - ac))     # u - w <= ahi - ac
            if alo is not None:
                edges.append((u, w, ac - alo))
        if len(edges) < 2 or not any(e[0] == y for e in edges) or not any(e[1] == x for e in edges):
            return None
        dist = {y: 0}
        for _ in range(4):
            ch = False
            for u, w, k in edges:
                if u in dist and (w not in dist or dist[u] + k < dist[w]):
                    dist[w] = dist[u] + k
                    ch = True
            if not ch:
                break
        return dist.get(x)

    def num_assume(self, lit, val):
        op, L, c = lit.op, lit.args[0], lit.args[1]
        lo, hi, ex = self.st.num.get(L, (None, None, frozenset()))
        isint = self.is_int(L)
        if op == "le":
            if val:
                hi = c if hi is None else min(hi, c)
            else:
                b = c + 1 if isint else c
                lo = b if lo is None else max(lo, b)
                if not isint:
                    ex = ex | {c}
        elif op == "lt":
            if val:
                hi = c if hi is None else min(hi, c)
                ex = ex | {c}
            else:
                lo = c if lo is None else max(lo, c)
        elif op == "eqn":
            if val:
                lo = hi = c
            else:
                ex = ex | {c}
        if isint:
            blo, bhi = self.single_bounds(L)
            l2 = lo if lo is not None else blo
            while l2 is not None and l2 in ex:
                l2 += 1
                lo = l2
            while hi is not None and hi in ex:
                hi -= 1
        self.st.num[L] = (lo, hi, ex)
        blo, bhi = self.bounds(L)
        if blo is not None and bhi is not None and (blo > bhi or (blo == bhi and blo in ex)):
            raise Infeasible
        self.propagate(L)
        atoms = set(linparts(L)[0])
        for A, (_, _, aex) in list(self.st.num.items()):
            if A is not L and A.op == "lin" and not atoms.isdisjoint(linparts(A)[0]):
                alo, ahi = self.bounds(A)
                if alo is not None and ahi is not None and (alo > ahi or (alo == ahi and alo in aex)):
                    raise Infeasible

    def propagate(self, L):
        """Disequalities between integers when one of them has a fixed value."""
        num = self.st.num
        forms = [L] if L.op == "lin" else [A for A, b in num.items() if A.op == "lin" and b[2] and L in linparts(A)[0]]
        if L.op != "lin":
            b = num.get(L)
            if not b or b[0] is None or b[0] != b[1]:
                return
        for A in forms:
            d, c0 = linparts(A)
            if len(d) != 2:
                continue
            for x, y in (tuple(d), tuple(d)[::-1]):
                b = num.get(x)
                if not b or b[0] is None or b[0] != b[1] or not isinstance(b[0], int) or not self.is_int(y):
                    continue
                for e in num[A][2]:
                    r = e - c0 - d[x] * b[0]
                    if not isinstance(r, int) or not isinstance(d[y], int) or r % d[y]:
                        continue
                    lo, hi, ex = num.get(y, (None, None, frozenset()))
                    if r // d[y] not in ex:
                        self.num_assume(T("eqn", y, r // d[y]), False)

    def num_decide(self, lit):
        op, L, c = lit.op, lit.args[0], lit.args[1]
        lo, hi = self.bounds(L)
        ex = self.st.num.get(L, (None, None, frozenset()))[2]
        if op == "eqn":
            if c in ex or (lo is not None and lo > c) or (hi is not None and hi < c):
                return False
            if lo == c and hi == c:
                return True
            return None
        if op == "le":
            if hi is not None and hi <= c:
                return True
            if lo is not None and (lo > c or (lo == c and c in ex)):
                return False
            return None
        if hi is not None and (hi < c or (hi == c and c in ex)):
            return True
        if lo is not None and lo >= c:
            return False
        return None

    # ------------------------------------------------------------ boolean facts
    def decide(self, lit):
        if lit.op == "const":
            return bool(cval(lit))
        if lit.op == "not":
            v = self.decide(lit.args[0])
            return None if v is None else not v
        v = self.st.facts.get(lit)
        if v is not None:
            return v
        o = lit.op
        if o in ("le", "lt", "eqn"):
            return self.num_decide(lit)
        if o == "isinst":
            v = self.decide_isinst(lit.args[0], lit.args[1])
            return self.decide_forall(lit) if v is None else v
        if o == "isnone":
            return self.decide_forall(lit)
        if o == "eq":
            a, b = lit.args
            for x, y in ((a, b), (b, a)):
                e = self.st.facts.get(("eqc", x))
                if e is not None and is_const(y):
                    return e == y
            return self.decide_forall(lit)
        if o == "exists":
            v = self.decide_exists(lit)
            return self.decide_forall(lit) if v is None else v
        if o in ("in", "truth", "is", "hasattr"):
            if o == "in":
                x, S = lit.args
                if isinstance(x, Term) and x.op == "at" and x.args[0] == S:
                    return True
                if isinstance(S, Term) and self.decide(self.rel_eq(seqlen(S), const(0))) is True:
                    return False
            return self.decide_forall(lit)
        return None

    def decide_exists(self, lit):
        n = lit.args[1]
        if self.num_zero(n):
            return False
        v = solved(lit.args[0], lit.args[2])
        if v is not None:
            p, q = self.decide(self.rel(const(0), "<=", v)), self.decide(self.rel(v, "<", n))
            if p is False or q is False:
                return False
            if p and q:
                return True
        return None

    def num_zero(self, n):
        return self.decide(self.rel(n, "<=", const(0))) is True

    def decide_forall(self, lit):
        for (idx, a, val) in self.st.facts.get("foralls", ()):
            if a.op != lit.op:
                continue
            b = {}
            vs = {bv(h) for h, _ in idx}
            if match_multi(a, lit, vs, b) and len(b) == len(vs):
                if all(self.decide(self.rel(const(0), "<=", b[bv(h)])) is True and self.below(b[bv(h)], subst(n, b)) for h, n in idx):
                    return val
        fs = self.st.facts.get("forall")
        if not fs:
            return None
        for (h, n, a, val) in fs:
            # atom a mentions bv(h): does it instantiate to lit?
            b = {}
            if a.op == lit.op and match_multi(a, lit, {bv(h)}, b) and b:
                j = b.get(bv(h))
                if j is None:
                    continue
                if self.decide(self.rel(const(0), "<=", j)) is True and self.below(j, n):
                    return val
        return None

    def below(self, j, n):
        """j < n is known, where positions of known members lie within their sequence."""
        if self.decide(self.rel(j, "<", n)) is True:
            return True
        if not isinstance(j, Term):
            return False
        if j.op == "index":
            S, x = j.args
            if isinstance(S, Term) and S.op == "seq":
                if len(S.args) != 1:
                    return False
                l, m = self.seg_in_lit(x, S.args[0]), length(S)
            else:
                l, m = T("in", x, S), seqlen(S)
        elif j.op == "first":
            l, m = exists_lit(*j.args), j.args[1]
            if l is None:
                return False
        else:
            return False
        if l is FALSE or not (l is TRUE or self.decide(l) is True):
            return False
        return self.decide(self.rel(m, "<=", n)) is True

    def assume(self, lit, val):
        if lit.op == "const":
            if bool(cval(lit)) != val:
                raise Infeasible
            return
        if lit.op == "not":
            return self.assume(lit.args[0], not val)
        o = lit.op
        if o in ("le", "lt", "eqn"):
            return self.num_assume(lit, val)
        cur = self.decide(lit)
        if cur is not None and cur != val:
            raise Infeasible
        if o == "isinst":
            t, c = lit.args
            pos, neg = self.st.facts.get(("cls", t), (frozenset(), frozenset()))
            if val:
                pos = pos | {c}
                self.st.facts[T("isnone", t)] = False
            else:
                neg = neg | {c}
            self.st.facts[("cls", t)] = (pos, neg)
            if isinstance(t, Term) and self.possible(t) == set():
                raise Infeasible
            return
        self.st.facts[lit] = val
        if o == "eq" and not is_const(lit.args[0]) and not is_const(lit.args[1]) and self.typ(lit.args[0])[0] == "str" and self.typ(lit.args[1])[0] == "str":
            self.str_closure(lit, val)
        if o == "eq" and val:
            a, b = lit.args
            for x, y in ((a, b), (b, a)):
                if is_const(y):
                    self.st.facts[("eqc", x)] = y
        if o == "in":
            x, S = lit.args
            if val:
                self.assume(self.rel(const(1), "<=", seqlen(S)), True)
                self.assume(self.rel(T("index", S, x), "<", seqlen(S)), True)
        if o == "exists":
            h, n, tree = lit.args
            if val:
                self.assume(self.rel(const(1), "<=", n), True)
                f = first_of(h, n, tree)
                if not is_const(f):
                    self.assume(self.rel(f, "<", n), True)
            else:
                # forall j < n: not tree(j), usable when the tree is one atom
                if tree.op == "ite" and tree.args[1].op == "const" and tree.args[2].op == "const":
                    v = bool(cval(tree.args[2]))   # exists false: atom must not take the branch with TRUE
                    fs = self.st.facts.get("forall", ())
                    self.st.facts["forall"] = fs + ((h, n, tree.args[0], v if False else not bool(cval(tree.args[1]))),)
                    idx, new = ((h, n),), ()
                    while tree.args[1] == TRUE and tree.args[2] == FALSE and tree.args[0].op == "exists":
                        h, n, tree = tree.args[0].args
                        if tree.op != "ite" or tree.args[1].op != "const" or tree.args[2].op != "const" or any(h == g for g, _ in idx):
                            break
                        idx += ((h, n),)
                        new += ((idx, tree.args[0], not bool(cval(tree.args[1]))),)
                    if new:
                        self.st.facts["foralls"] = self.st.facts.get("foralls", ()) + new

    def str_closure(self, lit, val):
        """Equality of strings is transitive."""
        pairs = self.st.facts.get("streq", ())
        pairs = pairs + ((lit.args, val),)
        self.st.facts["streq"] = pairs
        cl = {}

        def find(x):
            while cl.get(x, x) != x:
                x = cl[x]
            return x
        for (a, b), v in pairs:
            if v:
                cl[find(a)] = find(b)
        for (a, b), v in pairs:
            if not v and find(a) == find(b):
                raise Infeasible

    # ------------------------------------------------------------ classes of opaque values
    def base_class(self, t):
        ty = self.typ(t)
        return ty[1] if ty[0] == "inst" else None

    def possible(self, t):
        """Known classes the opaque instance may have (closed world; None = no instance type known)."""
        ty = self.st.types.get(t) or self._typ(t)
        if ty[0] == "opt":
            ty = ty[1]
        pos, neg = self.st.facts.get(("cls", t), (frozenset(), frozenset()))
        cpos = [c for c in pos if isinstance(c, ClassV)]
        if ty[0] == "inst":
            base = ty[1]
        elif cpos:
            base = cpos[0]
        else:
            return None
        out = set()
        for d in self.universe(base):
            if all(d.sub(c) for c in cpos) and not any(isinstance(c, ClassV) and d.sub(c) for c in neg):
                out.add(d)
        if any(not isinstance(c, ClassV) for c in pos) and not base.native:
            pass
        return out

    def universe(self, base):
        return [c for c in self.classes if c.sub(base)] or [base]

    def decide_isinst(self, t, c):
        f = self.st.facts.get(("cls", t))
        if isinstance(c, ClassV):
            p = self.possible(t)
            if p is None:
                ty = self.typ(t)
                if ty[0] not in ("any", "opt"):
                    return False
                if f and c in f[1]:
                    return False
                if f and f[0]:
                    # positive fact about a builtin type
                    return False if all(not isinstance(x, ClassV) for x in f[0]) else None
                return None
            ty = self.st.types.get(t) or self._typ(t)
            if ty[0] == "opt" and self.st.facts.get(T("isnone", t)) is not False:
                return False if not any(d.sub(c) for d in p) else None
            if ty == ANY and not (f and any(isinstance(x, ClassV) for x in f[0])):
                return None
            if p and all(d.sub(c) for d in p):
                return True
            if not any(d.sub(c) for d in p):
                return False
            return None
        # builtin / external class name
        if f:
            if c in f[0]:
                return True
            if c in f[1]:
                return False
            if c in EXCLUSIVE and any(x in EXCLUSIVE and x != c and {x, c} != {"int", "bool"} for x in f[0]):
                return False
            if c in EXCLUSIVE and any(isinstance(x, ClassV) and x.kind is None and not any(m.native or m.ext_bases for m in x.mro) for x in f[0]):
                return False
            if c == "int" and "bool" in f[0]:
                return True
            if c == "bool" and "int" in f[1]:
                return False
        return None

    def isinstance_(self, v, c):
        if isinstance(c, Term) and c.op == "tuple":
            return any(self.isinstance_(v, x) for x in self.as_list(c))
        if isinstance(c, Ref):
            return any(self.isinstance_(v, x) for x in self.as_list(c))
        name = c.name.split(".")[-1] if isinstance(c, (BuiltinV, ExtV)) else None
        if isinstance(v, ExcV):
            w = name if name else c
            return bool(v.is_a(w))
        if isinstance(v, ClassV):
            return name in ("type", "object", "Callable", "Hashable") or (v.meta is not None and isinstance(c, ClassV) and v.meta.sub(c))
        if isinstance(v, (FuncV, BoundV, BuiltinV, PartialV)):
            return name in ("Callable", "object", "Hashable")
        if isinstance(v, SliceV):
            return name == "slice"
        if isinstance(v, RangeV):
            return name in ("range", "Sequence", "Iterable", "Collection", "object", "Sized", "Container")
        if isinstance(v, (GenV, GenExpV)):
            return name in ("Iterator", "Iterable", "Generator", "object")
        if isinstance(v, Named):
            raise Unsupported(f"isinstance of {v}")
        if name == "object":
            return True
        ty = self.typ(v)
        if ty[0] == "opt":
            if self.branch(T("isnone", v)):
                return name == "NoneType"
            ty = self.typ(v)
        k = ty[0]
        if isinstance(c, ClassV):
            if isinstance(v, Ref):
                h = self.st.heap[v]
                if h.kind != "inst":
                    return False
                if isinstance(h.cls, ClassV):
                    return h.cls.sub(c)
                return self.branch(T("isinst", h.cls.args[0], c)) if isinstance(h.cls, Term) and h.cls.op == "typeof" else h.cls.sub(c)
            if v.op == "obj":
                cl = v.args[0]
                return cl.sub(c) if isinstance(cl, ClassV) else self.branch(T("isinst", cl.args[0], c))
            if v.op == "ntup":
                return v.args[0].sub(c)
            if v.op == "enum":
                return v.args[0] == c.qual
            if v.op == "dcopy":
                return self.isinstance_(v.args[0], c)
            if k in ("inst", "any"):
                return self.branch(T("isinst", v, c))
            return False
        if c is None or name is None:
            raise Unsupported(f"isinstance against {c}")
        if k == "none":
            return name == "NoneType"
        table = {
            "int": ("int", "Number", "Integral", "Real", "Hashable", "Complex", "integer"), "bool": ("bool", "int", "Number", "Hashable"),
            "str": ("str", "Sequence", "Hashable", "Iterable", "Container", "Collection", "Sized"),
            "list": ("list", "Sequence", "MutableSequence", "Iterable", "Container", "Collection", "Sized"),
            "tuple": ("tuple", "Sequence", "Iterable", "Hashable", "Container", "Collection", "Sized"),
            "seq": ("Sequence", "Iterable", "Container", "Collection", "Sized"),
            "dict": ("dict", "Mapping", "MutableMapping", "Iterable", "Container", "Collection", "Sized"),
            "set": ("set", "Set", "Iterable", "Container", "Collection", "Sized"),
            "array": ("ndarray", "Iterable", "Sized", "Container"), "bytes": ("bytes",), "enum": (),
        }
        if k == "num":
            if isinstance(v, Term) and is_const(v):
                x = cval(v)
                return isinstance(x, {"float": float, "complex": complex, "int": int, "bool": bool}.get(name, ())) or name in ("Number", "Hashable", "Complex") or (name == "Real" and not isinstance(x, complex))
            if name in ("Number", "Hashable", "Complex"):
                return True
            if name in ("float", "int", "complex", "Real"):
                return self.branch(T("isinst", v, name))
            return False
        if k == "seq" and name in ("list", "tuple"):
            return self.branch(T("isinst", v, name))
        if k in table:
            return name in table[k]
        if k == "inst":
            return self.inst_isa(ty[1], name)
        if k == "any":
            if name == "NoneType":
                return self.branch(T("isnone", v))
            return self.branch(T("isinst", v, name))
        raise Unsupported(f"isinstance({ty}, {name})")

    def inst_isa(self, cls, name):
        for k in cls.mro:
            for e in k.ext_bases:
                n = getattr(e, "name", "").split(".")[-1]
                if n == name:
                    return True
                if n in ("Sequence",) and name in ("Iterable", "Container", "Collection", "Sized"):
                    return True
                if n in ("AbstractSet",) and name in ("Set", "Iterable", "Container", "Collection", "Sized"):
                    return True
        if name == "Hashable":
            return True
        if name == "Callable":
            return self.class_lookup(cls, "__call__") is not None
        if cls.kind == "namedtuple":
            return name in ("tuple", "Sequence", "Iterable")
        if name == "Iterable":
            return self.class_lookup(cls, "__iter__") is not None
        return False

    # ------------------------------------------------------------ attribute access
    def instance_fields(self, cls):
        """(fields certainly set by the constructors, fields set anywhere) by class, from the source."""
        key = ("ifields", cls)
        r = self.memo.get(key)
        if r is not None:
            return r
        init, some = set(), set()
        called, names_seen = {"__init__"}, None
        methods = []
        for k in cls.mro:
            node = getattr(k, "node", None)
            if node is not None:
                methods += [f for f in node.body if isinstance(f, ast.FunctionDef)]
        grew = True
        while grew:
            # helpers the constructors call
            grew = False
            for f in methods:
                if f.name not in called:
                    continue
                for x in ast.walk(f):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr not in called:
                        called.add(x.func.attr)
                        grew = True
        for f in methods:
            a = f.args.posonlyargs + f.args.args
            names = {x.arg for x in a[:2]}
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in names:
                    (init if f.name in called else some).add(x.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) == 3 \
                        and isinstance(x.args[0], ast.Name) and x.args[0].id in names and isinstance(x.args[1], ast.Constant):
                    (init if f.name in called else some).add(x.args[1].value)
        self.memo[key] = (init, some)
        return init, some

    def getattr(self, o, name):
        if isinstance(o, Ref):
            h = self.st.heap[o]
            if h.kind == "inst":
                return self.inst_getattr(o, h.cls, name)
            return self.native_attr(h.kind, o, name)
        if isinstance(o, Term):
            return self.term_getattr(o, name)
        if isinstance(o, ClassV):
            return self.class_getattr(o, name)
        if isinstance(o, ModV):
            fr = self.st.frames[o.fid]
            if name in fr and not name.startswith("$"):
                return fr[name]
            m = self.load_module(o.name + "." + name)
            if m is not None:
                return m
            self.raise_("AttributeError", f"module {o.name}.{name}")
        if isinstance(o, ExtV):
            return self.ext_attr(o, name)
        if isinstance(o, SuperV):
            return self.super_getattr(o, name)
        if isinstance(o, ExcV):
            if name == "args":
                return T("tuple", seq([one(a) for a in o.args]))
            if name == "with_traceback":
                return ProcV(lambda *a: o)
            return self.native_attr("exc", o, name)
        if isinstance(o, FuncV):
            if name == "__name__":
                return const(o.name)
            if name == "__dict__":
                return self.alloc("dict", content=T("dict"))
            if name in ("__doc__", "__module__", "__qualname__", "__annotations__", "__wrapped__"):
                return T("fnattr", o, name)
            self.raise_("AttributeError", name)
        if isinstance(o, SignatureV) and name == "parameters":
            return o.parameters
        if isinstance(o, PropV):
            if name in ("setter", "getter", "deleter"):
                return BoundV(BuiltinV("prop." + name), o)
            if "self_required" in name:
                return o.self_required
            if name == "fget":
                return o.fget
            raise Unsupported(f"attribute {name} of a property")
        if isinstance(o, BoundV):
            if name == "__self__":
                return o.obj
            if name == "__func__":
                return o.func
            if name == "__name__":
                return const(getattr(o.func, "name", "?"))
        if isinstance(o, SliceV):
            if name in ("start", "stop", "step"):
                return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
        if isinstance(o, RangeV):
            if name in ("start", "stop", "step"):
                return getattr(o, name)
        if isinstance(o, CachedV):
            if name in ("cache_clear",):
                return ProcV(lambda: self.cache_clear(o))
            return self.getattr(o.func, name)
        if isinstance(o, BuiltinV):
            if name == "__name__":
                return const(o.name.split(".")[-1])
            b = f"{o.name}.{name}"
            if b in self.natives:
                return BuiltinV(b)
            if name in ("__setattr__", "__getattribute__", "__delattr__", "__new__", "__init__", "__eq__", "__hash__", "__repr__"):
                return BuiltinV("object." + name)
        return self.native_attr(type(o).__name__, o, name)

    def cache_clear(self, o):
        for k in [k for k in self.st.cont if isinstance(k, tuple) and k[0] == "lru" and k[1] is o]:
            del self.st.cont[k]
        return NONE

    def native_attr(self, kind, o, name):
        b = f"{kind}.{name}"
        if b in self.natives:
            return BoundV(BuiltinV(b), o)
        special = self.native_getattr(kind, o, name)
        if special is not None:
            return special
        raise Unsupported(f"attribute {name} of {kind}")

    def native_getattr(self, kind, o, name):
        return None

    def getattr_special(self, o, name):
        return self.getattr(o, name)

    def class_of(self, o):
        """Class value of an instance (ClassV or a typeof term)."""
        if isinstance(o, Ref):
            return self.st.heap[o].cls
        if o.op == "obj":
            return o.args[0]
        if o.op == "dcopy":
            return self.class_of(o.args[0])
        p = self.possible(o)
        if p and len(p) == 1:
            return next(iter(p))
        return T("typeof", o)

    def find_attr(self, o, cls, name):
        """Resolves a class attribute for an instance whose class may be only partly known."""
        if isinstance(cls, ClassV):
            return self.class_lookup(cls, name)
        src = cls.args[0]
        while True:
            p = sorted(self.possible(src) or [], key=lambda c: c.qual)
            if not p:
                raise Unsupported(f"attribute {name} of {src}")
            groups = {}
            for d in p:
                v = self.class_lookup(d, name)
                key = ("v", v) if isinstance(v, (Term, Ref, BuiltinV)) else ("id", id(v)) if v is not None else None
                groups.setdefault(key, (v, []))[1].append(d)
            if len(groups) == 1:
                return next(iter(groups.values()))[0]
            vals = [g[0] for g in groups.values()]
            if name in self.virtuals:
                return Virtual(name)
            if all(v is None or isinstance(v, Term) or isinstance(v, ClassV) for v in vals):
                if all(v is not None for v in vals):
                    return VARDATA
                # present in some classes only: split on them
            ndefs = len([g for g in groups.values() if isinstance(g[0], (FuncV, PropV))])
            if ndefs >= 5:
                return Virtual(name)
            # split on the most derived defining class
            owners = []
            for d in p:
                for k in d.mro:
                    fr = self.st.frames[k.fid]
                    if name in fr:
                        if k not in owners:
                            owners.append(k)
                        break
            owners.sort(key=lambda k: (-len(k.mro), k.qual))
            done = False
            for k in owners:
                if self.decide(T("isinst", src, k)) is None:
                    self.branch(T("isinst", src, k))
                    done = True
                    break
            if not done:
                raise Unsupported(f"cannot resolve {name}")

    def inst_getattr(self, o, cls, name):
        if name == "__class__":
            return cls
        if name == "__dict__":
            return InstDict(o)
        ca = self.find_attr(o, cls, name)
        if isinstance(ca, PropV) and ca.kind in ("property", "mixed"):
            if ca.kind == "property":
                return self.call(ca.fget, [o], {})
            return self.call_mixed(ca, cls, o)
        if isinstance(ca, Virtual):
            return self.virtual_attr(o, cls, ca, name)
        v = self.field_get(o, cls, name, ca)
        if v is not None:
            return v
        if isinstance(ca, PropV):
            if ca.kind == "cached":
                v = self.call(ca.fget, [o], {})
                self.field_set(o, name, v, cache=True)
                return v
            if ca.kind == "classm":
                return BoundV(ca.fget, cls)
            return ca.fget
        if isinstance(ca, (FuncV, CachedV)) or (isinstance(ca, BuiltinV) and "." in ca.name and ca.name in self.natives):
            return BoundV(ca, o)
        if isinstance(ca, Virtual):
            raise Unsupported("virtual")
        if ca is VARDATA:
            if isinstance(cls, Term):
                v = self.canon_attr(cls.args[0], name, o if isinstance(o, Term) else None)
                if v is not None:
                    return v
            return T("fld", o if isinstance(o, Term) else cls, name)
        if ca is not None:
            return ca
        g = self.find_attr(o, cls, "__getattr__") if isinstance(cls, ClassV) else None
        if isinstance(g, FuncV):
            return self.call(g, [o, const(name)], {})
        if name in ("__eq__", "__ne__", "__hash__", "__repr__", "__str__", "__init__", "__setattr__", "__getattribute__",
                    "__delattr__", "__sizeof__", "__format__"):
            return BoundV(BuiltinV("object." + name), o)
        if name == "__new__":
            return BuiltinV("object.__new__")
        self.raise_("AttributeError", name)

    def virtual_attr(self, o, cls, virt, name):
        p = self.possible(cls.args[0]) if isinstance(cls, Term) else [cls]
        defs = [self.class_lookup(d, name) for d in p]
        if any(isinstance(d, PropV) for d in defs):
            if self.virtual_effect:
                self.virtual_effect(self, o, name, (), {})
            return T("vprop", self.snap(o), name)
        return BoundV(virt, o)

    def field_get(self, o, cls, name, ca):
        """Instance attribute; None when certainly absent."""
        st = self.st
        key = (o, name)
        if key in st.fields:
            v = st.fields[key]
            return None if v is DELETED else v
        if isinstance(o, Ref):
            return None
        if o.op == "obj":
            for f, v in o.args[1]:
                if f == name:
                    return v
            return None
        if o.op == "ntup":
            c = o.args[0]
            if name in c.ntfields:
                return self.seq_at(o.args[1], const(c.ntfields.index(name)))
            return None
        # writes through possibly equal references
        for (t2, n2) in list(st.fields):
            if n2 == name and isinstance(t2, Term) and t2 != o and self.may_alias(o, t2):
                if self.branch(self.is_(o, t2)):
                    v = st.fields[(t2, n2)]
                    return None if v is DELETED else v
        for u in reversed(st.updates):
            if u.kind == "field" and u.name == name:
                r = self.update_lookup(u, o)
                if r is not None:
                    return r
        if o.op == "dcopy":
            v = self.field_get(o.args[0], cls, name, ca)
            return None if v is None else self.dcopy(v)
        if o.op == "lastval":
            raise Unsupported("attribute of a loop's last value")
        if isinstance(ca, (FuncV, BuiltinV)) or (isinstance(ca, PropV) and ca.kind != "cached"):
            return None
        known = self.field_known(o, cls, name)
        if known == "yes" or (known == "maybe" and ca is not None and not isinstance(ca, PropV)):
            return T("fld", o, name)
        if known == "maybe":
            if self.branch(T("hasattr", o, name)):
                return T("fld", o, name)
            return None
        if isinstance(ca, PropV) and ca.kind == "cached":
            if self.branch(T("hasattr", o, name)):
                return T("fld", o, name)
            return None
        return None

    def field_known(self, o, cls, name):
        while True:
            p = self.possible(cls.args[0]) if isinstance(cls, Term) else {cls}
            res = {}
            for d in p:
                init, some = self.instance_fields(d)
                res.setdefault("yes" if name in init else "maybe" if name in some else "no", []).append(d)
            if len(res) == 1:
                return next(iter(res))
            if isinstance(cls, ClassV):
                return next(iter(res))
            src = cls.args[0]
            # split on a class introducing the field
            owners = []
            for d in res.get("yes", []) + res.get("maybe", []):
                for k in reversed(d.mro):
                    init, some = self.instance_fields(k)
                    if name in init or name in some:
                        owners.append(k)
                        break
            owners.sort(key=lambda k: (len(k.mro), k.qual))
            for k in owners:
                if self.decide(T("isinst", src, k)) is None:
                    self.branch(T("isinst", src, k))
                    break
            else:
                return "maybe"

    def may_alias(self, a, b):
        if a == b:
            return True
        ra, rb = self.root_kind(a), self.root_kind(b)
        if ra != rb:
            return False
        ta, tb = self.typ(a), self.typ(b)
        if ta[0] == "inst" and tb[0] == "inst":
            if not (ta[1].sub(tb[1]) or tb[1].sub(ta[1])):
                pa, pb = self.possible(a), self.possible(b)
                if pa is not None and pb is not None and not (pa & pb):
                    return False
        elif ta[0] != tb[0] and "any" not in (ta[0], tb[0]) and not {ta[0], tb[0]} <= {"seq", "list", "tuple"}:
            return False
        if a.op == "fld" and b.op == "fld" and a.args[1] != b.args[1]:
            return False
        if a.op == "fld" and b.op == "fld" and a.args[0] != b.args[0] and not self.may_alias(a.args[0], b.args[0]):
            return False
        if a.op == "at" and b.op == "at" and a.args[0] == b.args[0] and self.distinct_seq(a.args[0]):
            if self.decide_lit(self.rel_eq(a.args[1], b.args[1])) is False:
                return False
        v = self.decide(self.is_(a, b))
        return v is not False

    def root_kind(self, t):
        """Fresh (created during the analysis) or not."""
        n = 0
        while isinstance(t, Term):
            if t.op == "dcopy":
                n += 1
                return ("copy", t.args[1] if len(t.args) > 1 else None)
            if t.op == "obj":
                return ("obj", t.args[2])
            if t.op in ("fld", "at", "get", "vals", "keys", "items", "fldu", "slice", "slicex"):
                t = t.args[0]
                continue
            break
        return ("old",)

    def field_set(self, o, name, v, cache=False):
        self.st.fields[(o, name)] = v

    def call_mixed(self, p, cls, inst):
        a = p.fget.node.args
        n = len(a.posonlyargs + a.args)
        if self.truth(p.self_required) and n >= 2 and inst is NONE:
            return NONE
        if n == 1:
            return self.call(p.fget, [cls], {})
        return self.call(p.fget, [cls, inst], {})

    def class_getattr(self, c, name):
        if name == "__name__":
            return self.st.fields.get((c, "__name__"), const(c.name))
        if name == "__qualname__":
            return const(c.qual)
        if name == "__class__":
            return c.meta or BuiltinV("type")
        if name == "__dict__":
            return ClassDict(c)
        if name == "__mro__":
            return T("tuple", seq([one(k) for k in c.mro]))
        if name in ("__bases__",):
            return T("tuple", seq([one(k) for k in c.bases]))
        if name == "__base__":
            return c.bases[0] if c.bases else BuiltinV("object")
        v = self.class_lookup(c, name)
        if v is None and c.meta is not None:
            m = self.class_lookup(c.meta, name)
            if m is not None:
                return BoundV(m, c) if isinstance(m, FuncV) else m
        if isinstance(v, PropV):
            if v.kind == "mixed":
                return self.call_mixed(v, c, NONE)
            if v.kind == "classm":
                return BoundV(v.fget, c)
            if v.kind == "static":
                return v.fget
            return v
        if v is not None:
            return v
        if c.kind == "namedtuple" and name == "_fields":
            return T("tuple", seq([one(const(f)) for f in c.ntfields]))
        if name in ("__init__", "__eq__", "__hash__", "__repr__", "__str__", "__setattr__", "__new__", "__init_subclass__"):
            return BuiltinV("object." + name)
        if name == "__doc__":
            return NONE
        if c.kind == "enum" and name == "__members__":
            fr = self.st.frames[c.fid]
            return T("dict", *[one(pair(const(k), v)) for k, v in fr.items() if isinstance(v, Term) and v.op == "enum"])
        self.raise_("AttributeError", f"{c.name}.{name}")

    def super_getattr(self, s, name):
        obj = s.obj
        if isinstance(obj, ClassV):
            if s.cls in obj.mro:
                v = self.class_lookup(obj, name, after=s.cls)
            else:                      # metaclass method
                v = self.class_lookup(obj.meta, name, after=s.cls) if obj.meta and s.cls in obj.meta.mro else None
                if v is None:
                    return BoundV(BuiltinV("type." + name), obj)
                return BoundV(v, obj)
            if isinstance(v, PropV) and v.kind == "mixed":
                return self.call_mixed(v, obj, NONE)
            if isinstance(v, PropV) and v.kind == "classm":
                return BoundV(v.fget, obj)
            if v is None:
                if name in ("__new__", "__init__", "__init_subclass__"):
                    return BuiltinV("object." + name)
                self.raise_("AttributeError", name)
            return v
        if isinstance(obj, Term) and obj.op == "typeof":
            v = self.super_lookup(obj.args[0], s.cls, name)
            if isinstance(v, PropV) and v.kind == "mixed":
                return self.call_mixed(v, obj, NONE)
            if isinstance(v, PropV) and v.kind == "classm":
                return BoundV(v.fget, obj)
            if v is None:
                self.raise_("AttributeError", name)
            return v
        cls = self.class_of(obj)
        if isinstance(cls, ClassV):
            v = self.class_lookup(cls, name, after=s.cls)
        else:
            v = self.super_lookup(cls.args[0], s.cls, name)
        if isinstance(v, PropV):
            if v.kind == "property":
                return self.call(v.fget, [obj], {})
            if v.kind == "mixed":
                return self.call_mixed(v, cls, obj)
            if v.kind == "classm":
                return BoundV(v.fget, cls)
            if v.kind == "static":
                return v.fget
            raise Unsupported("super() of a cached property")
        if isinstance(v, (FuncV, CachedV, BuiltinV)):
            return BoundV(v, obj)
        if v is not None:
            return v
        if name.startswith("__"):
            return BoundV(BuiltinV("object." + name), obj)
        self.raise_("AttributeError", name)

    def super_lookup(self, src, after, name):
        while True:
            p = sorted(self.possible(src) or [], key=lambda c: c.qual)
            groups = {}
            for d in p:
                v = self.class_lookup(d, name, after=after) if after in d.mro else None
                groups.setdefault(id(v), (v, []))[1].append(d)
            if len(groups) == 1:
                return next(iter(groups.values()))[0]
            for k in sorted({k for d in p for k in d.mro}, key=lambda k: (len(k.mro), k.qual)):
                if self.decide(T("isinst", src, k)) is None:
                    # does it separate the groups?
                    ins = {id(g[0]) for g in groups.values() if any(d.sub(k) for d in g[1])}
                    outs = {id(g[0]) for g in groups.values() if any(not d.sub(k) for d in g[1])}
                    if ins != outs:
                        self.branch(T("isinst", src, k))
                        break
            else:
                raise Unsupported(f"super lookup of {name} after {after.name} in {[(getattr(g[0],chr(113)+chr(117)+chr(97)+chr(108),g[0]), [d.name for d in g[1]]) for g in groups.values()]}")

    def term_getattr(self, o, name):
        ty = self.typ(o)
        if ty[0] == "opt":
            if self.branch(T("isnone", o)):
                self.raise_("AttributeError", f"'NoneType' object has no attribute '{name}'")
            ty = self.typ(o)
        k = ty[0]
        if o.op == "enum":
            if name == "name":
                return const(o.args[1])
            if name == "value":
                return T("enumvalue", o)
        if o.op == "ntup":
            v = self.field_get(o, o.args[0], name, None)
            if v is not None:
                return v
        if k == "inst":
            return self.inst_getattr(o, self.class_of(o), name)
        if k == "class":
            return self.typeof_getattr(o, ty[1], name)
        if k == "none":
            if name == "__class__":
                return ExtV("builtins.NoneType")
            self.raise_("AttributeError", f"'NoneType' object has no attribute '{name}'")
        if k == "any":
            return self.any_getattr(o, name)
        if k in ("seq", "tuple") and name in ("append", "extend", "insert", "clear", "remove", "pop", "sort"):
            if k == "seq":
                if self.isinstance_(o, BuiltinV("list")):
                    return BoundV(BuiltinV("list." + name), o)
            self.raise_("AttributeError", name)
        kk = {"seq": "list", "tuple": "list", "bool": "int", "num": "num"}.get(k, k)
        return self.native_attr(kk, o, name)

    def any_getattr(self, o, name):
        return self.ext_value_attr(o, name)

    def ext_value_attr(self, o, name):
        raise Unsupported(f"attribute {name} of {show(o)}")

    accessor = {}

    def canon_attr(self, src, name, inst):
        """Operand counts of an arbitrary operation, in terms of its own operands (operations are well formed)."""
        p = self.possible(src)
        if not p or not name.startswith("_num_") or not isinstance(src, Term):
            return None
        names = [{k.name for k in d.mro} for d in p]

        def size(cn, attr):
            f = self.accessor.get((cn, attr))
            if f is None:
                return None
            t = T("fld", src, f)
            if attr != "parameters":
                ty = self.typ(t)
                if ty[0] == "opt":
                    return None
            return seqlen(t)

        if name == "_num_params" and all("ParametricOperation" in n for n in names):
            return size("ParametricOperation", "parameters")
        ctl = all("ControlledOperation" in n for n in names)
        if name in ("_num_control", "_num_target") and ctl:
            if size("Operation", "qubits") is None:
                return None
            nc, nt, nq = (seqlen(T("fld", src, self.accessor[k])) for k in (("ControlledOperation", "control"), ("ControlledOperation", "target"), ("Operation", "qubits")))
            for x in (nc, nt):
                self.assume(self.rel(const(1), "<=", x), True)
            self.assume(self.rel_eq(add(nc, nt), nq), True)
            return nc if name == "_num_control" else nt
        if name == "_num_qubits":
            n = size("Operation", "qubits")
            if n is None:
                return None
            if ctl:
                self.canon_attr(src, "_num_control", None)
                return n
            if inst is not None:
                return n
            if all(not ("ControlledOperation" in n) for n in names):
                if self.branch(T("isnone", T("clsattr", T("typeof", src), name))):
                    return NONE
                return n
        return None

    def typeof_getattr(self, c, base, name):
        """Attribute of the (unknown) class of an instance."""
        src = c.args[0]
        if name == "__name__":
            return T("clsname", c)
        if name == "__class__":
            return base.meta or BuiltinV("type")
        if name == "__base__":
            return T("clsattr", c, "__base__")
        if name == "__mro__":
            raise Unsupported("__mro__ of an unknown class")
        if (c, name) in self.st.fields:
            return self.st.fields[(c, name)]
        v = self.find_attr(src, c, name)
        if v is VARDATA or isinstance(v, Term):
            x = self.canon_attr(src, name, None)
            if x is not None:
                return x
        if v is VARDATA:
            return T("clsattr", c, name)
        if isinstance(v, Virtual):
            return T("vclsattr", c, name)
        if isinstance(v, PropV):
            if v.kind == "mixed":
                return self.call_mixed(v, c, NONE)
            if v.kind == "classm":
                return BoundV(v.fget, c)
            if v.kind == "static":
                return v.fget
            return v
        if v is None:
            self.raise_("AttributeError", name)
        if isinstance(v, (FuncV, BuiltinV)):
            return v
        # plain data: subclasses unknown to the analysis may override it
        if isinstance(v, Term):
            return T("clsattr", c, name)
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Ref) or (isinstance(o, Term) and self.typ(o)[0] in ("inst", "opt")):
            if isinstance(o, Ref) and self.st.heap[o].kind != "inst":
                return self.native_setattr(o, name, v)
            if isinstance(o, Term) and self.typ(o)[0] == "opt":
                if self.branch(T("isnone", o)):
                    self.raise_("AttributeError", name)
            cls = self.class_of(o)
            sa = self.find_attr(o, cls, "__setattr__") if isinstance(cls, ClassV) else None
            if isinstance(sa, FuncV):
                return self.call(sa, [o, const(name), v], {})
            return self.inst_setattr(o, cls, name, v)
        if isinstance(o, ClassV):
            if o.meta is not None:
                f = self.class_lookup(o.meta, "__setattr__")
                if isinstance(f, FuncV):
                    return self.call(f, [o, const(name), v], {})
            return self.type_setattr(o, name, v)
        if isinstance(o, ModV):
            self.st.frames[o.fid][name] = v
            return
        if isinstance(o, PropV):
            if "self_required" in name:
                o.self_required = v
                return
            raise Unsupported("attribute of a property")
        if isinstance(o, FuncV):
            return
        if isinstance(o, Term) and self.typ(o)[0] == "class":
            self.st.fields[(o, name)] = v
            return
        if isinstance(o, Term) and self.typ(o)[0] == "none":
            self.raise_("AttributeError", name)
        return self.native_setattr(o, name, v)

    def native_setattr(self, o, name, v):
        raise Unsupported(f"setting {name} of {o}")

    def type_setattr(self, o, name, v):
        if name == "__name__":
            self.st.fields[(o, "__name__")] = v
        else:
            self.st.frames[o.fid][name] = v
        return NONE

    def inst_setattr(self, o, cls, name, v):
        ca = self.find_attr(o, cls, name)
        if isinstance(ca, PropV):
            if ca.kind == "property":
                if ca.fset is None:
                    self.raise_("AttributeError", f"property '{name}' has no setter")
                self.call(ca.fset, [o, v], {})
                return NONE
            if ca.kind == "mixed":
                self.raise_("AttributeError", "can't set attribute")
        if name == "__class__":
            raise Unsupported("assigning __class__")
        self.field_set(o, name, v)
        return NONE

    def delattr(self, o, name):
        key = (o, name)
        if isinstance(o, Ref):
            if key not in self.st.fields or self.st.fields[key] is DELETED:
                self.raise_("AttributeError", name)
            del self.st.fields[key]
            return
        if isinstance(o, Term):
            cls = self.class_of(o)
            if self.field_get(o, cls, name, self.find_attr(o, cls, name)) is None:
                self.raise_("AttributeError", name)
            self.st.fields[key] = DELETED
            return
        if isinstance(o, ClassV):
            self.st.frames[o.fid].pop(name, None)
            return
        raise Unsupported("delattr")

    def hasattr_(self, o, name):
        if isinstance(o, Ref) and self.st.heap[o].kind == "inst" or (isinstance(o, Term) and self.typ(o)[0] in ("inst",)):
            cls = self.class_of(o)
            ca = self.find_attr(o, cls, name)
            if isinstance(ca, PropV) and ca.kind == "mixed":
                pass
            elif ca is not None and not (isinstance(ca, PropV) and ca.kind == "property"):
                return True
            elif ca is None:
                return self.field_get(o, cls, name, None) is not None
        self.handlers.append(("AttributeError",))
        try:
            self.getattr(o, name)
            return True
        except PyRaise as e:
            if e.exc.is_a("AttributeError"):
                return False
            raise
        finally:
            self.handlers.pop()

    # ------------------------------------------------------------ identity, equality, truth
    def is_(self, a, b):
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            if x is NONE:
                return TRUE
            if not isinstance(x, Term):
                return FALSE
            ty = self.typ(x)
            if ty[0] == "opt" or ty == ANY:
                f = self.st.facts.get(T("isnone", x))
                if f is not None:
                    return const(f)
                return T("isnone", x)
            return const(ty[0] == "none")
        if isinstance(a, Ref) or isinstance(b, Ref):
            return const(a == b)
        if not isinstance(a, Term) or not isinstance(b, Term):
            return const(a == b if type(a) is type(b) else False)
        if a == b:
            return TRUE
        if is_const(a) and is_const(b):
            return const(cval(a) is cval(b) if not isinstance(cval(a), (int, str)) else (cval(a) == cval(b) and type(cval(a)) is type(cval(b))))
        if a.op == "enum" and b.op == "enum":
            return FALSE
        if a.op == "llref" or b.op == "llref":
            return self.rel(a.args[1], "==", b.args[1]) if a.op == b.op and a.args[0] == b.args[0] else FALSE
        ka, kb = self.root_kind(a), self.root_kind(b)
        if ka != kb:
            if a.op == "obj" and b.op == "obj":
                return self.same_made(a.args[2], b.args[2])
            if not (ka[0] == kb[0] == "obj" and self.same_made(ka[1], kb[1]) != FALSE):
                return FALSE
        elif a.op == "obj" and b.op == "obj":
            return TRUE
        if a.op not in ("dcopy", "obj") and b.op not in ("dcopy", "obj"):
            pa, pb = self.possible(a), self.possible(b)
            if pa and pb and not (pa & pb):
                return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op in ("list", "dict", "obj") and y.op in ("fld", "sym") and self.root_kind(y) == ("old",):
                return FALSE
        na = getattr(self, "noalias", ())
        if a in na or b in na:
            return FALSE
        for x, y in ((a, b), (b, a)):
            if is_const(x) and isinstance(cval(x), bool) and self.typ(y)[0] == "bool":
                return T("truth", y) if cval(x) else T("not", T("truth", y))
        x, y = sorted((a, b), key=skey)
        return T("is", x, y)

    IDCLASSES = ("Qubit", "Bit", "Variable")

    def eq(self, a, b):
        """Literal (or TRUE/FALSE) for a == b."""
        if isinstance(a, Ref) and a == b and self.st.heap[a].kind != "array":
            if not (self.st.heap[a].kind == "inst" and (self.has_inline_eq(a) or self.class_of(a).name not in self.IDCLASSES)):
                return TRUE
        if isinstance(a, Named) or isinstance(b, Named):
            if isinstance(a, RangeV) and isinstance(b, RangeV):
                return const(a == b)
            if isinstance(a, (Term, Ref)) or isinstance(b, (Term, Ref)):
                t = a if isinstance(a, (Term, Ref)) else b
                o = b if t is a else a
                if isinstance(o, (ClassV, ExtV)) and isinstance(t, Term) and self.typ(t)[0] in ("any", "class"):
                    return T("eq", *sorted((t, T("named", o)), key=skey))
                if isinstance(t, Term) and isinstance(o, Named):
                    return FALSE
                return FALSE
            return const(a == b)
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "llref":
            return self.is_(a, b)
        ta, tb = self.typ(a), self.typ(b)
        for x, tx, y in ((a, ta, b), (b, tb, a)):
            if tx[0] == "opt":
                if self.branch(T("isnone", x)):
                    return self.is_(y, NONE)
        ta, tb = self.typ(a), self.typ(b)
        if (ta[0] == "none" or tb[0] == "none") and not (ta[0] == "inst" and self.has_inline_eq(a)) and not (tb[0] == "inst" and self.has_inline_eq(b)):
            if ta[0] == tb[0]:
                return TRUE
            other = b if ta[0] == "none" else a
            if self.typ(other)[0] == "any":
                return self.is_(other, NONE)
            return FALSE
        if ta[0] == "inst" and tb[0] == "inst" and self.made_here(a) and self.made_here(b) and ta[1].name not in self.IDCLASSES:
            r = self.call_eq(a, b)
            if r is not None:
                return r
        if ta[0] == "inst" and self.has_inline_eq(a) or tb[0] == "inst" and self.has_inline_eq(b):
            r = self.call_eq(a, b)
            if r is not None:
                return r
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "enum":
            return const(a == b)
        if isinstance(a, Term) and isinstance(b, Term) and a != b and "uids" in self.st.facts and a in self.st.facts["uids"] and b in self.st.facts["uids"]:
            return FALSE            # identifiers handed out differ
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "joined" and a.args[:2] == b.args[:2]:
            if a != b and not self.branch(self.rel(a.args[2], "==", b.args[2])):
                return FALSE        # members of different lengths
            return self.rel(a.args[3], "==", b.args[3])
        if is_const(a) and is_const(b):
            try:
                return const(bool(cval(a) == cval(b)))
            except Exception:
                return FALSE
        if self.is_num(a) and self.is_num(b):
            return self.rel(a, "==", b)
        ka, kb = ta[0], tb[0]
        if ka == "any" and kb == "any" and "dcopy" in (a.op, b.op) and self.strip_copy(a) == self.strip_copy(b):
            return TRUE
        num = ("int", "num", "bool")
        seqs = ("list", "tuple", "seq")
        simple = num + seqs + ("str", "dict", "set", "bytes", "enum")
        if ka in simple and kb in simple:
            same = ka == kb or (ka in num and kb in num) or (ka in seqs and kb in seqs)
            if not same:
                return FALSE
            if {ka, kb} == {"list", "tuple"}:
                return FALSE
            if ka in seqs:
                return self.seq_eq(a, b)
            if ka == "dict" or ka == "set":
                x, y = self.snap(a), self.snap(b)
                return TRUE if x == y else T("eq", *sorted((x, y), key=skey))
        elif (ka in simple and kb == "inst") or (ka == "inst" and kb in simple):
            i, s, si = (a, b, tb) if ka == "inst" else (b, a, ta)
            c = self.typ(i)[1]
            if c.name in ("Bit", "Variable") and si[0] in num:
                pass
            elif isinstance(i, Term) and i.op == "ntup":
                return self.seq_eq(T("tuple", i.args[1]), s)
            else:
                return FALSE
        elif ka == "inst" and kb == "inst":
            ca, cb = ta[1], tb[1]
            if isinstance(a, Ref) and isinstance(b, Ref) and self.class_lookup(ca, "__eq__") is None and not ca.native:
                return const(a == b)
            if ca.native and cb.native:
                x, y = self.content(a), self.content(b)
                if x == y:
                    return TRUE
            idc = [c for c in (ca, cb) if c.name in self.IDCLASSES]
            if idc and not (ca.sub(cb) or cb.sub(ca)):
                return FALSE
        if ka == "array" or kb == "array":
            return T("arreq", self.snap(a), self.snap(b))
        if ka == "inst" and self.typ(a)[1].name in self.IDCLASSES and kb == "inst":
            return self.id_eq(a, b)
        x, y = self.snap(a), self.snap(b)
        if x == y:
            return TRUE
        if isinstance(x, Term) and isinstance(y, Term):
            if {x.op, y.op} <= {"cat", "const", "str"} and self.strings_differ(x, y):
                return FALSE
            return T("eq", *sorted((x, y), key=skey))
        return FALSE

    def strings_differ(self, x, y):
        def pre(t):
            if is_str_const(t):
                return cval(t), True
            if t.op == "cat" and is_str_const(t.args[0]):
                return cval(t.args[0]), False
            return "", False

        (p, pe), (q, qe) = pre(x), pre(y)
        n = min(len(p), len(q))
        return p[:n] != q[:n] or (pe and not qe and len(p) < len(q)) or (qe and not pe and len(q) < len(p))

    def call_eq(self, a, b):
        """a == b by the operands' own methods (None if neither has one)."""
        called = False
        for x, y in ((a, b), (b, a)):
            if self.typ(x)[0] != "inst":
                continue
            f = self.find_attr(x, self.class_of(x), "__eq__")
            if not isinstance(f, FuncV):
                continue
            called = True
            r = self.call(f, [x, y], {})
            if not (isinstance(r, BuiltinV) and r.name == "NotImplemented"):
                return const(self.truth(r))
        return self.is_(a, b) if called else None

    def made_here(self, a):
        return isinstance(a, Ref) and self.st.heap[a].kind == "inst"

    def has_inline_eq(self, a):
        ty = self.typ(a)
        return ty[0] == "inst" and any(c.name in self.inline_eq for c in ty[1].mro)

    def strip_copy(self, t):
        while isinstance(t, Term) and t.op == "dcopy":
            t = t.args[0]
        return t

    def id_eq(self, a, b):
        a, b = self.strip_copy(a), self.strip_copy(b)
        if a == b:
            return TRUE
        ra, rb = isinstance(a, Ref) or a.op == "obj", isinstance(b, Ref) or b.op == "obj"
        if self.typ(a)[1].name != "Variable":
            if ra and rb:
                # objects made here with their own identifiers, unless one is a copy
                ia, ib = self.fresh_id(a), self.fresh_id(b)
                if isinstance(ia, Term) and isinstance(ib, Term) and ia.op == ib.op == "perit":
                    return self.same_made(ia, ib)
                return TRUE if ia == ib else FALSE if ia is not None and ib is not None else T("eq", *sorted((self.snap(a), self.snap(b)), key=skey))
            if ra or rb:
                return FALSE
        else:
            na, nb = self.getattr(a, "name"), self.getattr(b, "name")
            return self.eq(na, nb)
        if a.op == "at" and b.op == "at" and a.args[0] == b.args[0] and self.distinct_seq(a.args[0]):
            return self.rel(a.args[1], "==", b.args[1])
        return T("eq", *sorted((a, b), key=skey))

    def same_made(self, x, y):
        """Literal: what two iterations of loops made is the same (new or perit terms)."""
        if x == y:
            return TRUE
        if x.op != y.op or len(x.args) != len(y.args):
            return FALSE
        if x.op == "new":
            (j, k, l), (j2, k2, l2) = x.args, y.args
        elif x.op == "perit":
            (c, j, k, l), (c2, j2, k2, l2) = x.args, y.args
            if c != c2:
                return FALSE
        else:
            return FALSE
        if j != j2:
            return FALSE
        if l != l2:
            if not (isinstance(l, Term) and isinstance(l2, Term) and l.op == l2.op == "perit"):
                return FALSE
            r = self.same_made(l, l2)
            if r == FALSE:
                return FALSE
            if r != TRUE:
                if not self.branch(r):
                    return FALSE
        return self.rel(k, "==", k2)

    def fresh_id(self, a):
        try:
            v = self.getattr(a, "id")
        except PyRaise:
            return None
        return v

    def distinct_seq(self, S):
        """Sequences without repeated elements."""
        if S in self.distinct_terms:
            return True
        if isinstance(S, Term):
            if S.op in ("items", "keys"):
                return True
            if S.op == "vals":
                return self.typ(S)[1][0] == "inst"
            if S.op == "seq" and len(S.args) == 1:
                x = S.args[0]
                if x.op == "splice":
                    return self.distinct_seq(x.args[0])
                if x.op == "many" and x.args[2].op == "leaf" and len(x.args[2].args) == 1:
                    y = x.args[2].args[0]
                    if y.op == "splice" and y.args[0].op == "items" and occurs(y.args[0], bv(x.args[0])):
                        return True
                    if y.op == "one" and isinstance(y.args[0], Term) and y.args[0].op == "obj" and occurs(y.args[0].args[2], bv(x.args[0])):
                        return True
        return False

    def seq_eq(self, a, b):
        x, y = self.items(a), self.items(b)
        if x == y:
            return TRUE
        if all(s.op == "one" for s in x.args) and all(s.op == "one" for s in y.args):
            if len(x.args) != len(y.args):
                return FALSE
            for p, q in zip(x.args, y.args):
                if not self.branch(self.eq(p.args[0], q.args[0])):
                    return FALSE
            return TRUE
        x, y = self.snapseq(x), self.snapseq(y)
        if x == y:
            return TRUE
        d = self.decide(self.rel_eq(length(x), length(y)))
        if d is False:
            return FALSE
        return T("eq", *sorted((x, y), key=skey))

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Term):
            if is_const(v):
                return bool(cval(v))
            if v.op in ("eq", "in", "isnone", "isinst", "le", "lt", "eqn", "exists", "not", "is", "hasattr", "truth", "cmp"):
                return self.branch(v)
            ty = self.typ(v)
            k = ty[0]
            if k == "opt":
                if self.branch(T("isnone", v)):
                    return False
                return self.truth(v)
            if k in ("int", "num"):
                return not self.branch(self.rel(v, "==", const(0)))
            if k == "bool":
                return self.branch(T("truth", v))
            if k in ("seq", "list", "tuple"):
                return not self.branch(self.rel(length(self.items(v)), "<=", const(0)))
            if k in ("dict", "set"):
                return not self.branch(self.rel(self.len_(v), "<=", const(0)))
            if k == "str":
                if v.op == "cat" and any(is_str_const(x) for x in v.args):
                    return True
                return not self.branch(T("eq", *sorted((v, const("")), key=skey)))
            if k == "enum":
                return True
            if k == "inst":
                return self.inst_truth(v)
            if k == "class":
                return True
            if k == "array":
                self.raise_("ValueError", "truth value of an array")
            if k == "none":
                return False
            f = self.st.facts.get(T("isnone", v))
            if f is True:
                return False
            r = self.branch(T("truth", v))
            if r:
                self.st.facts[T("isnone", v)] = False
            return r
        if isinstance(v, Ref):
            h = self.st.heap[v]
            if h.kind == "inst":
                return self.inst_truth(v)
            if h.kind == "array":
                self.raise_("ValueError", "truth value of an array")
            return not self.branch(self.rel(self.len_(v), "<=", const(0)))
        if isinstance(v, RangeV):
            return not self.branch(self.rel(v.length(), "<=", const(0)))
        return True

    def inst_truth(self, v):
        cls = self.class_of(v)
        if isinstance(v, Term) and v.op == "ntup":
            return len(cls.ntfields) > 0
        for m in ("__bool__", "__len__"):
            f = self.find_attr(v, cls, m)
            if f is not None and not isinstance(f, Virtual):
                r = self.call(f, [v], {})
                return self.truth(r)
        return True


class ClassDict(Named):
    def __init__(self, c):
        self.cls, self.name = c, "class __dict__"


class RangeV(Named):
    def __init__(self, start, stop, step=None):
        self.start, self.stop, self.step = start, stop, step or const(1)
        self.name = f"range({show(start)}, {show(stop)}, {show(self.step)})"

    def length(self):
        if self.step == const(1):
            return sub(self.stop, self.start)
        if self.step == const(-1):
            return sub(self.start, self.stop)
        if all(is_int_const(x) for x in (self.start, self.stop, self.step)):
            return const(len(range(cval(self.start), cval(self.stop), cval(self.step))))
        raise Unsupported("range with a step")

    def __eq__(self, o):
        return isinstance(o, RangeV) and (o.start, o.stop, o.step) == (self.start, self.stop, self.step)

    def __hash__(self):
        return hash((self.start, self.stop, self.step))


class _Mark(Named):
    def __init__(self, n):
        self.name = n


DELETED = _Mark("DELETED")
VARDATA = _Mark("VARDATA")


BINDERS = ("many", "forall", "exists", "first", "foldn", "sum")


def match_multi(pat, t, vs, b):
    """One-way matching of pat (with holes vs) against t, up to the names of bound variables."""
    if isinstance(pat, Term) and pat in vs:
        if pat in b:
            return b[pat] == t
        b[pat] = t
        return True
    if isinstance(pat, tuple):
        return isinstance(t, tuple) and len(pat) == len(t) and all(match_multi(p, q, vs, b) for p, q in zip(pat, t))
    if isinstance(pat, Term):
        if not isinstance(t, Term) or pat.op != t.op or len(pat.args) != len(t.args):
            return False
        if pat.op in BINDERS and isinstance(pat.args[0], int) and pat.args[0] != t.args[0]:
            x = T("sym", "$alpha")
            return all(match_multi(subst(p, {bv(pat.args[0]): x}), subst(q, {bv(t.args[0]): x}), vs, b) for p, q in zip(pat.args[1:], t.args[1:]))
        if pat.op in ("is", "eq") and len(pat.args) == 2:
            for args in (pat.args, pat.args[::-1]):
                c = dict(b)
                if all(match_multi(p, q, vs, c) for p, q in zip(args, t.args)):
                    b.update(c)
                    return True
            return False
        return all(match_multi(p, q, vs, b) for p, q in zip(pat.args, t.args))
    return pat == t


def solve_member(pat, t, var):
    """The value of var that makes pat the term t, or None."""
    if isinstance(pat, Term) and isinstance(t, Term) and pat.op == t.op == "obj":
        p, q = pat.args[2], t.args[2]
        if isinstance(p, Term) and isinstance(q, Term) and p.op == q.op == "new" and p.args[1] == var and p.args[0] == q.args[0] and p.args[2] == q.args[2]:
            return q.args[1]
    b = {}
    return b["v"] if match_term(pat, t, var, b) and "v" in b else None


def match_term(pat, t, var, b):
    """One-way matching of pat (with hole var) against t."""
    if pat == var:
        if "v" in b:
            return b["v"] == t
        b["v"] = t
        return True
    if isinstance(pat, tuple):
        return isinstance(t, tuple) and len(pat) == len(t) and all(match_term(p, q, var, b) for p, q in zip(pat, t))
    if isinstance(pat, Term):
        if not isinstance(t, Term) or pat.op != t.op or len(pat.args) != len(t.args):
            return False
        return all(match_term(p, q, var, b) for p, q in zip(pat.args, t.args))
    return pat == t


def exists_lit(h, n, tree):
    """Canonical literal for: some i < n satisfies the boolean tree (bound variable bv(h))."""
    if tree == FALSE:
        return FALSE
    if tree == TRUE:
        return None
    i = bv(h)
    if tree.op == "ite" and tree.args[1] == TRUE and tree.args[2] == FALSE:
        a = tree.args[0]
        if a.op == "eq":
            for x, y in (a.args, a.args[::-1]):
                if isinstance(x, Term) and x.op == "at" and x.args[1] == i and not occurs(x.args[0], i) and not occurs(y, i):
                    if n == seqlen(x.args[0]):
                        return T("in", y, x.args[0])
    return T("exists", h, n, tree)


def solved(h, tree):
    """The only index at which the tree holds, or None."""
    i = bv(h)
    if tree.op == "ite" and tree.args[1] == TRUE and tree.args[2] == FALSE and tree.args[0].op == "eqn" and tree.args[0].args[1] == const(0):
        d, c = linparts(tree.args[0].args[0])
        if abs(d.get(i, 0)) == 1 and not any(occurs(x, i) for x in d if x != i):
            r = add(tree.args[0].args[0], scale(i, -d[i]))
            return scale(r, -d[i])
    return None


def first_of(h, n, tree):
    if tree == TRUE:
        return const(0)
    v = solved(h, tree)
    if v is not None:
        return v
    lit = exists_lit(h, n, tree)
    if lit is not None and lit.op == "in":
        return T("index", lit.args[1], lit.args[0])
    return T("first", h, n, tree)


def filter_tree(t):
    """Which branches of a filtering tree give elements; None when that depends on more than the tree."""
    if t.op == "leaf":
        return TRUE if any(x.op == "one" for x in t.args) else FALSE if not t.args else None
    a, b = filter_tree(t.args[1]), filter_tree(t.args[2])
    return None if a is None or b is None else ite(t.args[0], a, b)


def filter_lit(m):
    """Literal: the filtered sequence m = many(h, n, tree) has an element."""
    h, n, tree = m.args
    b = filter_tree(tree)
    if b is None:
        return None
    hh = height(b) + 1
    return exists_lit(hh, n, subst(b, {bv(h): bv(hh)}))
