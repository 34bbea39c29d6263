"""Summaries of loops: one generic iteration is analysed, its effects become closed terms over the index."""
from __future__ import annotations
import ast
from .terms import *
from .values import *
from .interp import *
from .objects import *
from .natives import *
from .objects import match_multi

DEL = DELETED


class Upd:
    """Effect of a whole loop on fields or contents of the values opat(i), i < n."""

    def __init__(self, kind, name, idx, opat, tree):
        self.kind, self.name, self.idx, self.opat, self.tree = kind, name, idx, opat, tree

    def key(self):
        return (self.kind, self.name, self.idx, self.opat, self.tree)

    def __eq__(self, o):
        return isinstance(o, Upd) and o.key() == self.key()

    def __hash__(self):
        return hash((self.kind, self.name, self.idx, self.opat))


class Poison(Named):
    """A local variable of a loop, read after the loop."""

    def __init__(self, n):
        self.name = "value of a loop's last round: " + n


NOVAL = const("$unchanged")


class Abandon(Unsupported):
    pass


class Precompute(Exception):
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


def tree_ite(lit, a, b):
    if a is None:
        return b
    if b is None:
        return a
    return ite(lit, a, b)


def tree_map(t, f):
    if t is None:
        return None
    if t.op == "ite":
        return ite(t.args[0], tree_map(t.args[1], f), tree_map(t.args[2], f))
    return f(t)


class Loops(Natives):

    # ------------------------------------------------------------ driving
    def loop_over(self, S, body):
        S = self.expand(S)
        for s in S.args:
            self.loop_seg(s, body)

    def loop_seg(self, s, body):
        if s.op == "one":
            body(s.args[0])
        elif s.op == "splice":
            X = s.args[0]
            self.generic(seqlen(X), lambda k: body(at(X, k)))
        elif s.op == "many":
            h, n, tr = s.args

            def step(k):
                t = subst(tr, {bv(h): k})
                while t.op == "ite":
                    t = t.args[1] if self.branch(t.args[0]) else t.args[2]
                for x in self.expand(seq(t.args)).args:
                    self.loop_seg(x, body)
            self.generic(n, step)
        else:
            raise Unsupported(f"iterating segment {s.op}")

    def generic(self, n, step):
        c = self.const_len(n)
        if c is not None and c <= 16:
            for i in range(c):
                step(const(i))
            return
        if self.num_zero(n):
            return
        self.stats["loops"] += 1
        self.seqno += 1
        no = self.seqno
        tries = 0
        while True:
            tries += 1
            if tries > 60:
                raise Unsupported("loop: too many preliminary decisions")
            key = (self.ctx, tuple(self.dec[:self.pos]), no, tries, tuple((l.k) for l in self.loops))
            r = self.memo.get(key)
            if r is None:
                try:
                    r = ("sum", self.summarise(n, step, no))
                except Hoist as h:
                    r = ("hoist", h.lit)
                except Precompute as h:
                    r = ("pre", h.obj, h.name)
                self.memo[key] = r
            if r[0] == "pre":
                # a cached attribute first read inside the loop
                self.getattr(r[1], r[2])
                continue
            if r[0] == "hoist":
                self.branch(r[1])
                continue
            break
        self.apply_summary(r[1], n, step)

    # ------------------------------------------------------------ differences
    def diff(self, old, new, birth):
        """Locations of old that new changed: {loc: value}."""
        out = {}
        for fid, fr in old.frames.items():
            nf = new.frames.get(fid)
            if nf is None or nf == fr:
                continue
            for x, v in nf.items():
                if x not in fr or fr[x] is not v and fr[x] != v:
                    out[("var", fid, x)] = v
            for x in fr:
                if x not in nf:
                    out[("var", fid, x)] = UNBOUND
        for key, v in new.fields.items():
            if key not in old.fields or (old.fields[key] is not v and old.fields[key] != v):
                if isinstance(key[0], Ref) and key[0].oid > birth:
                    continue
                out[("fld",) + key] = v
        for key, v in new.cont.items():
            if key not in old.cont or (old.cont[key] is not v and old.cont[key] != v):
                if isinstance(key, Ref) and key.oid > birth:
                    continue
                out[("cont", key)] = v
        if new.trace != old.trace:
            out[("trace",)] = new.trace
        if new.updates != old.updates:
            out[("updates",)] = new.updates
        return out

    def get_loc(self, st, loc):
        if loc[0] == "var":
            return st.frames[loc[1]].get(loc[2], UNBOUND)
        if loc[0] == "fld":
            return st.fields.get((loc[1], loc[2]), UNBOUND)
        if loc[0] == "cont":
            return st.cont.get(loc[1], UNBOUND)
        if loc[0] == "trace":
            return st.trace
        return UNBOUND

    def set_loc(self, st, loc, v):
        if loc[0] == "var":
            if v is UNBOUND:
                st.frames[loc[1]].pop(loc[2], None)
            else:
                st.frames[loc[1]][loc[2]] = v
        elif loc[0] == "fld":
            st.fields[(loc[1], loc[2])] = v
        elif loc[0] == "cont":
            st.cont[loc[1]] = v
        elif loc[0] == "trace":
            st.trace = v

    # ------------------------------------------------------------ objects made in an iteration
    def instance(self, birth):
        """Names one execution of a loop: what its iterations make differs from what other loops make."""
        n = f"loop#{birth}"
        self.birth[n] = birth
        return sym(n)

    def reify(self, v, st, birth, k, names, depth=0):
        """Value made in an iteration as a term (per-iteration unknowns become functions of the index)."""
        if depth > 12:
            raise Abandon("deep structure")
        d2 = depth + 1 if isinstance(v, Ref) else depth

        def go(x):
            return self.reify(x, st, birth, k, names, d2)

        if isinstance(v, tuple):
            return tuple(go(x) if isinstance(x, (Term, Ref, tuple)) else x for x in v)
        if isinstance(v, Ref):
            if v.oid <= birth:
                return v
            h = st.heap[v]
            if h.kind == "list":
                return T("list", go(st.cont[v]))
            if h.kind == "set":
                return T("setv", go(st.cont[v]))
            if h.kind == "dict":
                return go(st.cont[v])
            if h.kind == "array":
                return go(st.cont[v])
            if h.kind == "inst":
                if ("ref", v) in names:
                    return names[("ref", v)]
                ident = T("new", sum(1 for q in names if q[0] == "ref"), k, self.instance(birth))
                names[("ref", v)] = T("selfref", ident)
                fs = []
                for (o, f), x in st.fields.items():
                    if o == v and x is not DEL:
                        fs.append((f, go(x)))
                if v in st.cont:
                    fs.append(("$items", go(st.cont[v])))
                fs.sort(key=lambda p: p[0])
                t = T("obj", h.cls, tuple(fs), ident)
                names[("ref", v)] = t
                return t
            raise Abandon(f"{h.kind} made in a loop")
        if isinstance(v, BoundV):
            o = go(v.obj)
            return v if o == v.obj else BoundV(v.func, o)
        if isinstance(v, (FuncV, ClassV, BuiltinV, ExtV, PropV, ModV)):
            return v
        if isinstance(v, RangeV):
            return RangeV(go(v.start), go(v.stop), v.step)
        if isinstance(v, Named):
            raise Abandon(f"{v.name} kept by a loop")
        if not isinstance(v, Term):
            return v
        if v.op == "sym":
            b = self.birth.get(v.args[0])
            if b is not None and b > birth and v != k and ("phi", v) not in names:
                if ("sym", v) not in names:
                    base = v.args[0].split("#")[0]
                    j = sum(1 for q in names if q[0] == "sym" and q[1].args[0].split("#")[0] == base)
                    names[("sym", v)] = T("perit", base, j, k, self.instance(birth))
                return names[("sym", v)]
            return v
        if not v.args:
            return v
        na = tuple(go(x) if isinstance(x, (Term, Ref, tuple)) or isinstance(x, Named) else x for x in v.args)
        if all(p is q for p, q in zip(na, v.args)):
            return v
        return rebuild(v.op, na)

    # ------------------------------------------------------------ decision trees
    def build_tree(self, paths, leaf_of):
        """paths: [(lits dict, payload)] -> canonical tree of leaves."""
        if not paths:
            return None
        leaves = {}
        atoms = set()
        for lits, p in paths:
            atoms |= set(lits)
        order = sorted(atoms, key=skey)

        def go(ps, i):
            vals = {id(p): leaf_of(p) for _, p in ps}
            first = next(iter(vals.values()))
            if all(x == first for x in vals.values()):
                return first
            while i < len(order):
                a = order[i]
                i += 1
                if not any(a in l for l, _ in ps):
                    continue
                yes = [(l, p) for l, p in ps if l.get(a, True)]
                no = [(l, p) for l, p in ps if not l.get(a, False)]
                y = go(yes, i) if yes else None
                n = go(no, i) if no else None
                return tree_ite(a, y, n)
            raise Abandon("iterations distinguished by more than their conditions")

        return go(paths, 0)

    # ------------------------------------------------------------ summarising
    def phi_for(self, st0, loc, v0, samples):
        """Installs an unknown previous value at loc in st0; returns the unknown term and its style."""
        saved = self.st
        self.st = st0
        try:
            if loc[0] == "trace":
                p = self.fresh("phi", ("seq", ANY))
                st0.trace = (T("splice", p),)
                return p, "trace"
            vs = [v0] + samples
            if all(isinstance(v, Ref) for v in vs) and loc[0] != "cont":
                kinds = {self.kind_in(v, st) for v, st in self._samples_src(loc, v0, samples)}
                if len(kinds) == 1 and next(iter(kinds)) in ("list", "array"):
                    kd = next(iter(kinds))
                    p = self.fresh("phi", ("seq", ANY) if kd == "list" else ARRAY)
                    r = self.alloc(kd, content=seq([T("splice", p)]) if kd == "list" else p)
                    self.set_loc(st0, loc, r)
                    return p, "ref:" + kd
                if kinds == {"inst"} and all(self.reg_in(v, st) for v, st in self._samples_src(loc, v0, samples)):
                    cls = self.st.heap[v0].cls if v0 in self.st.heap else None
                    if cls is not None and all(st.heap[v].cls is cls for v, st in self._samples_src(loc, v0, samples)):
                        self.same_fields(v0, [(v, self._sample_state.get(v, self.st)) for v in samples])
                        et = next((self.regelem[c.name] for c in cls.mro if c.name in self.regelem), ANY)
                        p = self.fresh("phi", ("seq", et))
                        self.opt_phis.add(p)
                        r = self.alloc("inst", cls, content=seq([T("splice", p)]))
                        self.copy_fields(self.st, v0, r)
                        self.set_loc(st0, loc, r)
                        return p, "ref:inst"
                raise Abandon(f"{loc} rebound to objects")
            if isinstance(v0, Term) and v0.op == "seq":
                et = self.elemtype(v0) if v0.args else ANY
                p = self.fresh("phi", ("seq", et))
                st0.cont[loc[1]] = seq([T("splice", p)])
                return p, "seq"
            if isinstance(v0, Term) and v0.op == "dict":
                p = self.fresh("phi", ("dict", ANY, ANY))
                st0.cont[loc[1]] = T("dict", T("splice", p))
                return p, "dict"
            if isinstance(v0, Term) and v0.op == "tuple" and all(isinstance(s, Term) and s.op == "tuple" for s in samples):
                p = self.fresh("phi", ("seq", ANY))
                self.set_loc(st0, loc, T("tuple", seq([T("splice", p)])))
                return p, "tuple"
            tys = set()
            for v in vs:
                if isinstance(v, Ref) and self.st.heap.get(v) is None:
                    tys.add(ANY)
                elif isinstance(v, (Term, Ref)):
                    tys.add(self.typ(v))
                else:
                    tys.add(ANY)
            if len(tys) > 1 and {t[0] for t in tys} <= {"int", "num", "bool"}:
                ty = NUM if any(t[0] == "num" for t in tys) else INT
            elif len(tys) == 1:
                ty = next(iter(tys))
                if ty[0] == "none":
                    ty = ANY
            elif len(tys) == 2 and ("none",) in tys:
                ty = Opt(next(t for t in tys if t != ("none",)))
            else:
                ty = ANY
            p = self.fresh("phi", ty)
            if loc[0] == "cont" and not (isinstance(v0, Term)):
                raise Abandon("summarised content")
            self.set_loc(st0, loc, p)
            return p, "val"
        finally:
            self.st = saved

    opt_phis = set()
    opt_used = set()

    def reg_in(self, v, st):
        s = self.st
        self.st = st
        try:
            return self.is_register(v)
        finally:
            self.st = s

    def same_fields(self, v0, samples):
        st0 = self.st
        f0 = {f: x for (o, f), x in st0.fields.items() if o == v0}
        cls = st0.heap[v0].cls
        for v, st in samples:
            fs = {f: x for (o, f), x in st.fields.items() if o == v}
            for f in set(f0) | set(fs):
                a, b = f0.get(f, self.class_lookup(cls, f)), fs.get(f, self.class_lookup(cls, f))
                if a != b:
                    raise Abandon("objects that differ in their fields")

    def copy_fields(self, st, v0, r):
        for (o, f), x in list(st.fields.items()):
            if o == v0:
                st.fields[(r, f)] = x

    def kind_in(self, v, st):
        h = st.heap.get(v)
        return h.kind if h else "?"

    def _samples_src(self, loc, v0, samples):
        yield v0, self.st
        for s in samples:
            st = self._sample_state.get(s, self.st)
            yield s, st

    def loop_local(self, loc, birth):
        """Locations that exist per iteration only."""
        if loc[0] == "var":
            return False
        o = loc[1]
        return False

    def summarise(self, n, step, no):
        base = self.st
        birth = base.cnt
        phis = {}        # loc -> (phi, style)
        closed = {}      # loc -> closed form of the value before iteration k
        order = []
        givenup = set()
        exits = []
        for rnd in range(14):
            st0 = base.clone()
            self.st = st0
            ctx = None
            try:
                k = self.fresh("k", INT)
                ctx = LoopCtx(k, birth)
                self.assume(self.rel(const(0), "<=", k), True)
                self.assume(self.rel(k, "<", n), True)
                cur = {}
                for loc in order:
                    if loc in closed:
                        self.install_closed(st0, loc, closed[loc], k)
                        cur[loc] = (None, phis[loc][1])
                    else:
                        p, style = self.phi_for(st0, loc, self.get_loc(base, loc), phis[loc][2])
                        if style != phis[loc][1] and phis[loc][1] is not None:
                            raise Abandon("changing shape")
                        cur[loc] = (p, style)
                pre = st0.clone()
                self.loops.append(ctx)
                try:
                    paths = self.explore(st0, lambda: step(k), tag=("loop", no, rnd))
                finally:
                    self.loops.pop()
            except Abandon as e:
                raise Unsupported(f"loop: {e}")
            finally:
                self.st = base
            normal = [p for p in paths if p.kind == "ok"]
            exits = [p for p in paths if p.kind == "exit"]
            changed = {}
            self._sample_state = {}
            for p in normal:
                for loc, v in self.diff(pre, p.st, birth).items():
                    changed.setdefault(loc, []).append(v)
                    if isinstance(v, Ref):
                        self._sample_state[v] = p.st
            for p in paths:
                # also on the way out of the loop
                for loc in self.diff(pre, p.st, birth):
                    if loc[0] == "fld" and not self.indexed(loc, birth) and isinstance(self.get_loc(p.st, loc), (Ref, Term)) \
                            and self.get_loc(base, loc) in (UNBOUND, DEL) and self.cached_attr(loc):
                        raise Precompute(loc[1], loc[2])
            new = []
            for loc in changed:
                if loc in phis or loc[0] == "updates":
                    continue
                if self.indexed(loc, birth):
                    continue
                if loc[0] == "var" and self.get_loc(base, loc) is UNBOUND:
                    continue
                if loc[0] == "fld" and self.get_loc(base, loc) is UNBOUND:
                    # first write to a field of a value known before the loop
                    continue
                if loc[0] == "cont" and self.get_loc(base, loc) is UNBOUND:
                    if isinstance(loc[1], Term):
                        self.st = base
                        base.cont[loc[1]] = self.content(loc[1])
                    else:
                        continue
                new.append(loc)
            if new:
                for loc in sorted(new, key=repr):
                    phis[loc] = (None, None, [v for v in changed[loc]])
                    order.append(loc)
                continue
            try:
                out, again = self.effects(base, pre, normal, exits, cur, closed, order, k, n, birth, changed, phis)
            except Abandon as e:
                raise Unsupported(f"loop: {e}")
            if again:
                for loc, c in again.items():
                    closed[loc] = c
                    if phis[loc][1] is None:
                        phis[loc] = (None, cur[loc][1], phis[loc][2])
                continue
            out["cnt"] = max([p.st.cnt for p in paths] + [pre.cnt, base.cnt])
            out["imprecise"] = tuple(dict.fromkeys(x for p in paths for x in p.st.imprecise if x not in base.imprecise))
            out["notes"] = tuple(dict.fromkeys(x for p in paths for x in p.st.notes if x not in base.notes))
            return out
        raise Unsupported("loop summary does not stabilise")

    def cached_attr(self, loc):
        if isinstance(loc[1], ClassV):
            return False
        cls = self.class_of(loc[1])
        p = [cls] if isinstance(cls, ClassV) else (self.possible(loc[1]) or [])
        return bool(p) and all(isinstance(self.class_lookup(c, loc[2]), PropV) and self.class_lookup(c, loc[2]).kind == "cached" for c in p)

    def indexed(self, loc, birth):
        """A location that depends on the iteration."""
        if loc[0] in ("fld", "cont") and isinstance(loc[1], Term):
            def hit(x):
                if isinstance(x, Ref):
                    return x.oid > birth
                if x.op == "sym":
                    b = self.birth.get(x.args[0])
                    return b is not None and b > birth
                return False
            return contains_any(loc[1], hit)
        return False

    def install_closed(self, st0, loc, c, k):
        v = c(k)
        if v is None:
            raise Abandon("no closed form")
        if isinstance(v, tuple) and v and v[0] == "ref":
            saved = self.st
            self.st = st0
            r = self.new_ref(v)
            self.st = saved
            v = r
        self.set_loc(st0, loc, v)

    def lits_of(self, p):
        d = {}
        for l, v in p.lits:
            if l.op == "not":
                l, v = l.args[0], not v
            d[l] = v
        return d

    def effects(self, base, pre, normal, exits, cur, closed, order, k, n, birth, changed, phis):
        out = {"final": {}, "poison": [], "need1": False, "upd": [], "exit": None, "n": n}
        names_of = {}
        phiset = {p: loc for loc, (p, s) in cur.items() if p is not None}

        def names(p):
            if id(p) not in names_of:
                names_of[id(p)] = {("phi", q): q for q in phiset}
            return names_of[id(p)]

        def re(p, v):
            return self.reify(v, p.st, birth, k, names(p))

        def phis_in(t):
            return {q for q in phiset if isinstance(t, (Term, tuple)) and occurs(t, q)}

        lits = {id(p): {re(p, l): v for l, v in self.lits_of(p).items()} for p in normal + exits}
        np = [(lits[id(p)], p) for p in normal]
        trees = {}
        again = {}
        deps = set()
        for p in normal + exits:
            for l in lits[id(p)]:
                deps |= phis_in(l)
        for loc in order:
            p0, style = cur[loc]
            v0 = self.get_loc(base, loc)

            def value(p):
                v = self.get_loc(p.st, loc)
                if style and style.startswith("ref:"):
                    r = v
                    if not isinstance(r, Ref):
                        raise Abandon("rebinding")
                    return p.st.cont[r]
                if v is UNBOUND:
                    raise Abandon("unbound in an iteration")
                return v

            def init():
                if style and style.startswith("ref:"):
                    return base.cont[v0]
                return v0

            if loc in closed:
                # verify: value after iteration k equals the closed form at k+1
                nxt = closed[loc](add(k, const(1)))
                if isinstance(nxt, tuple) and nxt[0] == "ref":
                    nxt = nxt[2]
                trees[loc] = ("closed", closed[loc])
                if style == "dict":
                    before = closed[loc](k)
                    if before.args and before.args[-1].op == "overs" and all(
                            p.st.cont.get(loc[1]) is not None and p.st.cont[loc[1]].args[:-1] == before.args and p.st.cont[loc[1]].args[-1].op in ("one", "many") for p in normal):
                        # no key is written twice
                        def upgraded(j, c=closed[loc]):
                            d = c(j)
                            return T("dict", *(d.args[:-1] + tuple(T("many", *x.args) if x.op == "overs" else x for x in d.args[-1:])))
                        trees[loc] = ("closed", upgraded)
                continue
            if not normal:
                trees[loc] = ("same",)
                continue
            seqlike = style in ("trace", "seq", "tuple", "ref:list", "ref:inst")
            head = T("splice", p0)
            if seqlike:
                def segs(p):
                    v = value(p)
                    a = tuple(v) if style == "trace" else v.args[0].args if style == "tuple" else v.args
                    return a
                if all(segs(p)[:1] == (head,) for p in normal):
                    def lf(p):
                        return leaf([re(p, s) for s in segs(p)[1:]])
                    tr = self.build_tree(np, lf)
                    if p0 not in phis_in(tr) or True:
                        trees[loc] = ("append", tr, init(), v0)
                        deps |= phis_in(tr)
                        if p0 in self.opt_used:
                            deps.add(p0)
                        continue
                # pointwise replacement
                tr = self.pointwise(np, segs, p0, init() if style != "trace" else None, style, k, head, re)
                if tr is not None and not (phis_in(tr) & {p0}):
                    trees[loc] = ("map", tr, init())
                    deps |= phis_in(tr)
                    continue
                # other: general fold
                def gl(p):
                    return leaf([one(T("tuple", seq([re(p, s) for s in segs(p)])))])
                tr = self.build_tree(np, gl)
                trees[loc] = ("fold", tr, T("tuple", seq(init() if style == "trace" else init().args[0].args if style == "tuple" else init().args)), p0, style)
                deps |= phis_in(tr) - {p0}
                continue
            if style == "dict":
                if all(value(p).args[:1] == (head,) for p in normal):
                    def lf(p):
                        return leaf([re(p, s) for s in value(p).args[1:]])
                    tr = self.build_tree(np, lf)
                    if all(s.op == "one" for s in tree_segs(tr)):
                        trees[loc] = ("dappend", tr, init())
                        deps |= phis_in(tr)
                        continue
                    # keys that may be there already: a later write counts

                    def write(s):
                        if s.op == "over":
                            return one(s.args[0])
                        if s.op in ("overs", "many"):
                            return T("many", *s.args)
                        return s
                    if all(s.op in ("one", "over", "overs", "many") for s in tree_segs(tr)):
                        wr = self.build_tree(np, lambda p: leaf([write(re(p, s)) for s in value(p).args[1:]]))
                        trees[loc] = ("dover", wr, init())
                        deps |= phis_in(wr)
                        continue
                tr = self.build_tree(np, lambda p: leaf([one(re(p, value(p)))]))
                trees[loc] = ("fold", tr, init(), p0, style)
                deps |= phis_in(tr) - {p0}
                continue
            # plain values
            vals = {id(p): value(p) for p in normal}
            if all(isinstance(v, Term) and (v.op == "cat" and v.args[0] == p0 or v == p0) for v in vals.values()) and self.typ_in(pre, p0)[0] == "str":
                def lf(p):
                    v = vals[id(p)]
                    x = cat(v.args[1:]) if v != p0 else const("")
                    return leaf([one(re(p, x))])
                tr = self.build_tree(np, lf)
                trees[loc] = ("str", tr, init())
                deps |= phis_in(tr)
                continue
            if self.typ_in(pre, p0)[0] in ("int", "num", "bool") and all(isinstance(v, Term) and dict(linparts(v)[0]).get(p0) == 1 for v in vals.values()):
                def lf(p):
                    return leaf([one(re(p, sub(vals[id(p)], p0)))])
                tr = self.build_tree(np, lf)
                if not phis_in(tr) or True:
                    trees[loc] = ("sum", tr, init())
                    deps |= phis_in(tr)
                    continue
            tr = self.build_tree(np, lambda p: leaf([one(re(p, vals[id(p)]))]))
            ph = phis_in(tr)
            if p0 not in ph and tr.op == "leaf":
                trees[loc] = ("last", tr, init())
                out["need1"] = True
                deps |= ph
                continue
            # sticky: some iterations assign, the others keep
            sv = {x for x in self.leaf_vals(tr)}
            others = sv - {p0}
            if p0 in sv and len(others) == 1 and not phis_in(next(iter(others))) and not self.depends(next(iter(others)), birth):
                c = next(iter(others))
                bt = tree_map(tr, lambda l: FALSE if l.args[0].args[0] == p0 else TRUE)
                if not phis_in(bt):
                    trees[loc] = ("sticky", bt, init(), c)
                    continue
            trees[loc] = ("fold", tr, init(), p0, style)
            deps |= ph - {p0}
        # closed forms of the accumulators others depend on
        for q in deps:
            loc = phiset[q]
            t = trees[loc]
            if loc in closed:
                continue
            c = self.closed_form(t, cur[loc][1], k, phiset)
            if c is None:
                if t[0] == "same":
                    continue
                if t[0] == "fold" and not any(q in phis_in(l) for p in normal + exits for l in lits[id(p)]):
                    # another accumulator uses this one's running value
                    raise Abandon("entangled accumulators")
                raise Abandon(f"decision depends on an accumulated value ({loc})")
            again[loc] = c
        if again:
            return None, again
        for loc in order:
            t = trees[loc]
            c = self.closed_form(t, cur[loc][1], k, phiset, last=True)
            if c is None:
                raise Abandon(f"effect of kind {t[0]} on {loc}")
            out["final"][loc] = (c, cur[loc][1], self.get_loc(base, loc))
        # first writes and per-iteration locations
        for loc in changed:
            if loc in phis:
                continue
            if loc[0] == "updates":
                out["upd"].extend(self.nested_updates(base, np, n, k, re, phis_in))
                continue
            if self.indexed(loc, birth):
                v0 = self.get_loc(pre, loc)
                kind = "field" if loc[0] == "fld" else "cont"

                def val(p):
                    v = self.get_loc(p.st, loc)
                    if v is UNBOUND or v == v0:
                        return leaf([])
                    return leaf([one(re(p, v) if v is not DEL else const("$deleted"))])
                o = loc[1]
                tr = self.build_tree(np, val)
                if phis_in(tr) or phis_in(o):
                    raise Abandon("indexed update depends on an accumulated value")
                h = max(height(tr), height(o)) + 1
                m = {k: bv(h)}
                out["upd"].append(Upd(kind, loc[2] if loc[0] == "fld" else None, ((h, n),), subst(o, m), subst(tr, m)))
                continue
            if loc[0] == "var":
                out["poison"].append(loc)
                continue
            # field first written in the loop: loop-invariant unconditional value, else give up
            vs = {self.get_loc(p.st, loc) for p in normal}
            if len(vs) == 1 and not self.depends(next(iter(vs)), birth):
                out["final"][loc] = ((lambda v: (lambda j: v))(next(iter(vs))), "val", UNBOUND)
                out["need1"] = True
                continue
            if len(vs) == 1 and isinstance(next(iter(vs)), Ref):
                r = next(iter(vs))
                v = self.reify(r, normal[0].st, birth, k, names(normal[0]))
                if not contains_any(v, lambda x: x == k):
                    raise Abandon("object made in a loop and kept")
            raise Abandon(f"field {loc} set in a loop")
        if exits:
            ps = [(lits[id(p)], p) for p in normal + exits]
            ex = {id(p) for p in exits}
            tr = self.build_tree(ps, lambda p: TRUE if id(p) in ex else FALSE)
            if tr is None:
                tr = FALSE
            if phis_in(tr):
                raise Abandon("exit depends on an accumulated value")
            out["exit"] = (tr, k)
        return out, {}

    def pointwise(self, np, segs, p0, init, style, k, head, re):
        """Iteration k replaces at most element k: the tree of new elements."""
        if init is None or not np:
            return None
        S0 = init.args[0] if style == "tuple" else init
        old = at(p0, k)
        old0 = self.seq_at(S0, k) if len(S0.args) == 1 else None
        if old0 is None:
            return None
        vals = {}
        for lits, p in np:
            s = segs(p)
            if s == (head,):
                v = old
            else:
                rest = sub(seqlen(p0), add(k, const(1)))
                if len(s) == 3 and s[1].op == "one" and s[0] == T("splice", T("slice", p0, const(0), k)) \
                        and s[2] == T("splice", T("slice", p0, add(k, const(1)), seqlen(p0))):
                    v = s[1].args[0]
                else:
                    return None
            vals[id(p)] = subst(re(p, v), {old: old0})
        lits2 = [({subst(l, {old: old0}): v for l, v in lits.items()}, p) for lits, p in np]
        return self.build_tree(lits2, lambda p: leaf([one(vals[id(p)])]))

    def nested_updates(self, base, np, n, k, re, phis_in):
        """Updates made by loops inside the iterations."""
        per = {}
        for lits, p in np:
            for i, u in enumerate(p.st.updates[len(base.updates):]):
                u2 = Upd(u.kind, u.name, tuple((h, re(p, m)) for h, m in u.idx), re(p, u.opat), re(p, u.tree))
                per.setdefault((u2.kind, u2.name, u2.idx, u2.opat, i), {})[id(p)] = u2.tree
        res = []
        for (kind, name, idx, opat, i), trees in per.items():
            tr = self.build_tree(np, lambda p: trees.get(id(p), leaf([])))
            if phis_in(tr) or phis_in(opat) or any(phis_in(m) for h, m in idx):
                raise Abandon("nested update depends on an accumulated value")
            if not occurs(opat, k):
                raise Abandon("nested update of the same values in every iteration")
            H = max([height(tr), height(opat)] + [max(h, height(m)) for h, m in idx]) + 1
            m = {k: bv(H)}
            res.append(Upd(kind, name, ((H, n),) + tuple((h, subst(x, m)) for h, x in idx), subst(opat, m), subst(tr, m)))
        return res

    def depends(self, t, birth):
        if isinstance(t, Named):
            return False

        def hit(x):
            if isinstance(x, Ref):
                return x.oid > birth
            if x.op == "sym":
                b = self.birth.get(x.args[0])
                return b is not None and b > birth
            return False
        return contains_any(t, hit)

    def typ_in(self, st, t):
        s = self.st
        self.st = st
        try:
            return self.typ(t)
        finally:
            self.st = s

    def leaf_vals(self, t):
        if t.op == "ite":
            return self.leaf_vals(t.args[1]) + self.leaf_vals(t.args[2])
        return [s.args[0] for s in t.args]

    def closed_form(self, t, style, k, phiset, last=False):
        """Function of the number of completed iterations giving the accumulated value."""
        kind = t[0]

        def has_phi(x):
            return any(occurs(x, q) for q in phiset)

        if kind == "closed":
            return t[1]
        if kind == "same":
            return (lambda j: "same")
        if has_phi(t[1]) and kind != "fold":
            return None
        if kind == "append":
            tr, init = t[1], t[2]

            def c(j):
                segs = tuple(init) if style == "trace" else init.args[0].args if style == "tuple" else init.args
                m = many(k, j, tr)
                s = seq(segs + ((m,) if not (m.op == "many" and m.args[2] == leaf([])) else ()))
                if style == "trace":
                    return s.args
                if style == "tuple":
                    return T("tuple", s)
                if style == "ref:inst":
                    return ("ref", "inst", s, t[3])
                if style.startswith("ref:"):
                    return ("ref", "list", s)
                return s
            return c
        if kind == "map":
            tr, init = t[1], t[2]
            S0 = init.args[0] if style == "tuple" else init
            L = length(S0)

            def cm(j):
                m = many(k, j, tr)
                segs = [m]
                if self.decide(self.rel_eq(L, j)) is not True:
                    if len(S0.args) == 1 and S0.args[0].op == "splice":
                        x = S0.args[0].args[0]
                        segs.append(T("splice", T("slice", x, j, seqlen(x))))
                    elif len(S0.args) == 1 and S0.args[0].op == "many" and S0.args[0].args[2].op == "leaf" and len(S0.args[0].args[2].args) == 1:
                        segs.append(T("splice", T("slice", T("tuple", S0), j, L)))
                    else:
                        raise Abandon("partial replacement")
                r = seq(segs)
                if style == "tuple":
                    return T("tuple", r)
                if style == "ref:inst":
                    raise Abandon("replacement in a register")
                if style.startswith("ref:"):
                    return ("ref", "list", r)
                return r
            return cm
        if kind == "dappend":
            tr, init = t[1], t[2]
            return lambda j: T("dict", *(init.args + (many(k, j, tr),)))
        if kind == "dover":
            tr, init = t[1], t[2]
            return lambda j: T("dict", *(init.args + (T("overs", *many(k, j, tr).args),)))
        if kind == "str":
            tr, init = t[1], t[2]
            return lambda j: cat([init, T("fold", T("seq", many(k, j, tr)))])
        if kind == "sum":
            tr, init = t[1], t[2]
            if tr.op == "leaf" and not occurs(tr, k):
                d = tr.args[0].args[0]
                if is_num_const(d):
                    return lambda j: add(init, scale(j, cval(d)))
                return lambda j: add(init, mul(d, j))

            def cs(j):
                h = height(tr) + 1
                return add(init, T("sum", h, j, subst(tr, {k: bv(h)})))
            return cs
        if kind == "sticky":
            bt, init, cst = t[1], t[2], t[3]

            def ck(j):
                h = height(bt) + 1
                b = subst(bt, {k: bv(h)})
                return ("sticky", h, j, b, init, cst)
            return ck if last else None
        if kind == "last":
            tr, init = t[1], t[2]
            if last:
                v = tr.args[0].args[0]
                return lambda j: subst(v, {k: sub(j, const(1))})
            return None
        if kind == "fold":
            tr, init, p0 = t[1], t[2], t[3]
            if any(occurs(tr, q) for q in phiset if q != p0):
                return None

            def cf(j):
                h = height(tr) + 1
                b = subst(tr, {k: bv(h), p0: T("acc", h)})
                i = init
                if isinstance(i, tuple):
                    i = T("tuple", seq(i))
                f = T("foldn", h, j, i, b)
                if style == "trace":
                    return (T("splice", f),)
                if style in ("seq",):
                    return seq([T("splice", f)])
                if style == "tuple":
                    return T("tuple", seq([T("splice", f)]))
                if style == "ref:list":
                    return ("ref", "list", seq([T("splice", f)]))
                if style == "ref:inst":
                    return None
                if style == "dict":
                    return T("dict", T("splice", f))
                if style == "ref:array":
                    return ("ref", "array", f)
                return f
            return cf if last or style in ("val",) else None
        return None

    # ------------------------------------------------------------ applying
    def apply_summary(self, out, n, step):
        st = self.st
        st.cnt = max(st.cnt, out["cnt"])
        for x in out["imprecise"]:
            if x not in st.imprecise:
                st.imprecise = st.imprecise + (x,)
        for x in out["notes"]:
            if x not in st.notes:
                st.notes = st.notes + (x,)
        if out["exit"] is not None:
            tr, k = out["exit"]
            h = height(tr) + 1
            b = subst(tr, {k: bv(h)})
            lit = exists_lit(h, n, b)
            if lit is None:
                lit = self.rel(const(1), "<=", n)
            if self.branch(lit):
                j = first_of(h, n, b)
                self.assume(self.rel(const(0), "<=", j), True)
                self.assume(self.rel(j, "<", n), True)
                self.install_final(out, j)
                self.assume_tree(subst(b, {bv(h): j}), True)
                step(j)
                raise Infeasible
        if out["need1"] or any(True for _ in ()):
            if not self.branch(self.rel(const(1), "<=", n)):
                for loc in out["poison"]:
                    pass
                return
        self.install_final(out, n)
        for loc in out["poison"]:
            self.st.frames[loc[1]][loc[2]] = Poison(loc[2])

    def new_ref(self, v):
        if v[1] == "inst":
            r = self.alloc("inst", self.st.heap[v[3]].cls, content=v[2])
            self.copy_fields(self.st, v[3], r)
            return r
        return self.alloc(v[1], content=v[2])

    def assume_tree(self, t, val):
        while t.op == "ite":
            d = self.decide_lit(t.args[0])
            if d is None:
                a, b = t.args[1], t.args[2]
                bad = const(not val)
                if a == bad:
                    self.assume(t.args[0], False)
                    t = b
                    continue
                if b == bad:
                    self.assume(t.args[0], True)
                    t = a
                    continue
                return
            t = t.args[1] if d else t.args[2]

    def install_final(self, out, j):
        st = self.st
        for loc, (c, style, v0) in out["final"].items():
            v = c(j)
            if isinstance(v, str) and v == "same":
                continue
            if isinstance(v, tuple) and v and v[0] == "ref":
                v = self.new_ref(v)
            if isinstance(v, tuple) and v and v[0] == "sticky":
                _, h, jj, b, init, cst = v
                lit = exists_lit(h, jj, b)
                if lit is None:
                    lit = self.rel(const(1), "<=", jj)
                v = cst if self.branch(lit) else init
            self.set_loc(st, loc, v)
        for u in out["upd"]:
            st.updates = st.updates + (Upd(u.kind, u.name, ((u.idx[0][0], j),) + u.idx[1:], u.opat, u.tree),)

    def update_lookup(self, u, o):
        b = {}
        vs = {bv(h) for h, _ in u.idx}
        if match_multi(u.opat, o, vs, b) and len(b) == len(vs):
            for h, n in u.idx:
                j = b[bv(h)]
                if not self.branch(self.rel(const(0), "<=", j)):
                    return None
                if not self.branch(self.rel(j, "<", subst(n, b))):
                    return None
            return self.upd_value(u, b)
        if isinstance(u.opat, Term) and isinstance(o, Term):
            ks = {bv(h): self.fresh("k", INT) for h, _ in u.idx}
            ok = subst(u.opat, ks)
            if not self.may_alias(o, ok):
                return None
            lit = self.is_(o, ok)
            if lit == FALSE:
                return None
            t = ite(lit, TRUE, FALSE) if lit != TRUE else TRUE
            ex = lit
            inv = {v: k for k, v in ks.items()}
            for h, n in reversed(u.idx):
                ex = exists_lit(h, n, subst(t, inv))
                if ex is None:
                    ex = self.rel(const(1), "<=", n)
                t = ite(ex, TRUE, FALSE) if ex not in (TRUE, FALSE) else ex
            if self.branch(ex):
                h0 = u.idx[0][0]
                if len(u.idx) == 1 and u.opat.op == "at" and u.opat.args[1] == bv(h0) and not occurs(u.opat.args[0], bv(h0)) \
                        and self.distinct_seq(u.opat.args[0]):
                    # the one position at which the sequence holds this object
                    j = T("index", u.opat.args[0], o)
                    self.assume(self.rel(j, "<", u.idx[0][1]), True)
                    return self.upd_value(u, {bv(h0): j})
                v = self.leaf_vals2(u.tree)
                if len(v) == 1 and not contains_any(next(iter(v)), lambda x: x in vs):
                    v = next(iter(v))
                    return None if v is NOVAL else DEL if v == const("$deleted") else v
                raise Unsupported("reading through an alias of values updated in a loop")
        return None

    def leaf_vals2(self, t):
        if t.op == "ite":
            return self.leaf_vals2(t.args[1]) | self.leaf_vals2(t.args[2])
        return {t.args[0].args[0] if t.args else NOVAL}

    def upd_value(self, u, b):
        t = subst(u.tree, b)
        while t.op == "ite":
            t = t.args[1] if self.branch(t.args[0]) else t.args[2]
        if not t.args:
            return None
        v = t.args[0].args[0]
        return DEL if v == const("$deleted") else v

    def while_loop(self, s, fid):
        for i in range(33):
            if not self.truth(self.ev(s.test, fid)):
                self.block(s.orelse, fid)
                return
            try:
                self.block(s.body, fid)
            except ContinueEx:
                pass
            except BreakEx:
                return
        raise Unsupported("while loop")
