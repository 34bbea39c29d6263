"""Abstract interpreter: trace-partitioned forward analysis of the Python AST over value numbers.

One run of `explore` follows every combination of undecided conditions (partition of traces).
Unbounded iteration is never unrolled: see loops.py, which summarises a generic iteration.
"""
from __future__ import annotations
import ast
import builtins
import time
from . import frontend
from .terms import *
from .values import *


class Hoist(Exception):
    """A loop body needs a decision that does not depend on the iteration."""

    def __init__(self, lit):
        self.lit = lit


class StopYield(Exception):
    def __init__(self, token, value):
        self.token, self.value = token, value


CONTROL = (ReturnEx, BreakEx, ContinueEx, PyRaise, StopYield)

BUILTIN_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}

BUILTINS = set("""len list tuple dict set frozenset range enumerate zip reversed sorted map filter any all sum min max abs
round isinstance issubclass type hasattr getattr setattr delattr repr str int float complex bool next iter super print hash
callable id vars object property classmethod staticmethod divmod pow chr ord format slice bytes NotImplemented Ellipsis
__import__ dir""".split())


class Path:
    def __init__(self, kind, value, st, lits, dec):
        self.kind, self.value, self.st, self.lits, self.dec = kind, value, st, lits, dec


class LoopCtx:
    def __init__(self, k, birth):
        self.k, self.birth = k, birth


def assigned_names(node, cache={}):
    """Local names of a function (assigned somewhere in its body), minus global/nonlocal."""
    r = cache.get(id(node))
    if r is not None and r[0] is node:
        return r[1]
    names, glob, nonl = set(), set(), set()

    def targets(t):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
        names.add(x.arg)
    r = (names - glob - nonl, glob, nonl)
    cache[id(node)] = (node, r)
    return r


def is_generator(node, cache={}):
    r = cache.get(id(node))
    if r is not None and r[0] is node:
        return r[1]

    def has(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            return False
        return any(has(c) for c in ast.iter_child_nodes(n))

    v = False if isinstance(node, ast.Lambda) else any(has(s) for s in node.body)
    cache[id(node)] = (node, v)
    return v


class InterpBase:
    MAXPATHS = 6000

    def __init__(self):
        self.st = State()
        self.dec, self.arity, self.pos, self.lits = [], {}, 0, []
        self.loops = []          # LoopCtx stack
        self.ctx, self.seqno = (), 0
        self.memo = {}
        self.handlers = []       # active except clauses: tuples of classes (None = everything)
        self.yields = {}         # fid -> callback
        self.callstack = []
        self.modules = {}
        self.classes = []        # every ClassV of the analysed program (closed world)
        self.birth = {}          # sym name -> counter at creation
        self.deadline = None
        self.visited = set()     # functions analysed
        self.splits_all = False  # every implicit exception is considered
        self.stats = {"paths": 0, "loops": 0, "calls": 0}

    # ------------------------------------------------------------ fresh things
    def tick(self):
        self.st.cnt += 1
        return self.st.cnt

    def fresh(self, base, ty=None):
        n = f"{base}#{self.tick()}"
        self.birth[n] = self.st.cnt
        t = sym(n)
        if ty is not None:
            self.st.types[t] = ty
        return t

    def alloc(self, kind, cls=None, content=None):
        r = Ref(self.tick())
        self.st.heap[r] = HObj(kind, cls)
        if content is not None:
            self.st.cont[r] = content
        return r

    def where(self):
        return " < ".join(f"{f}:{ln[0]}" for f, ln in reversed(self.callstack[-6:])) or "<top>"

    def raise_(self, name, msg=""):
        args = (const(msg),) if isinstance(msg, str) else (msg,)
        raise PyRaise(ExcV(name, args), self.where())

    # ------------------------------------------------------------ decisions
    def choose(self, n):
        if self.pos >= len(self.dec):
            self.dec.append(0)
            self.arity[self.pos] = n
        v = self.dec[self.pos]
        self.pos += 1
        return v

    def loop_dependent(self, t):
        ctx = self.loops[-1]

        def hit(x):
            if isinstance(x, Ref):
                return x.oid > ctx.birth
            if x.op == "sym":
                b = self.birth.get(x.args[0])
                return b is not None and b > ctx.birth
            return False

        return contains_any(t, hit)

    def branch(self, lit):
        if lit is TRUE or lit is True:
            return True
        if lit is FALSE or lit is False:
            return False
        neg = False
        if lit.op == "not":
            neg, lit = True, lit.args[0]
        v = self.decide(lit)
        if v is None:
            if self.loops and not self.loop_dependent(lit):
                raise Hoist(lit)
            parts = self.filter_parts(lit)
            if parts:
                v = True
                for L, ex in parts:
                    if self.branch(ex):
                        v = False
                        break
                    self.assume(self.rel(L, "==", const(0)), True)
                if lit.op == "eqn" or not v:
                    self.assume(lit, v)
                return (not v) if neg else v
            v = self.choose(2) == 0
            self.lits.append((lit, v))
            self.assume(lit, v)
        return (not v) if neg else v

    def filter_parts(self, lit):
        """The existence literals that decide whether filtered sequences are all empty."""
        if lit.op not in ("le", "eqn") or lit.args[1] != 0:
            return None
        d, c = linparts(lit.args[0])
        if c != 0 or not d or any(not isinstance(k, int) or k < 0 for k in d.values()):
            return None
        from .objects import filter_lit
        out, some = [], False
        for x in sorted(d, key=skey):
            e = None
            if isinstance(x, Term) and x.op == "len" and x.args[0].op == "seq" and len(x.args[0].args) == 1 and x.args[0].args[0].op == "many":
                e = filter_lit(x.args[0].args[0])
            if e is None:
                e = self.rel(const(1), "<=", x)
                if self.single_bounds(x)[0] != 0:
                    return None
            else:
                some = True
            out.append((x, e))
        return out if some else None

    def explore(self, st0, thunk, tag=None, sink=None):
        saved = (self.st, self.dec, self.arity, self.pos, self.lits, self.ctx, self.seqno,
                 list(self.handlers), dict(self.yields), list(self.callstack), list(self.loops))
        ctx = self.ctx + ((tuple(self.dec[:self.pos]), self.seqno, tag),)
        out, work = ([] if sink is None else sink), [()]
        try:
            while work:
                pre = work.pop()
                self.st = st0.clone()
                self.dec, self.arity, self.pos, self.lits = list(pre), {}, 0, []
                self.ctx, self.seqno = ctx, 0
                self.handlers, self.yields, self.callstack = list(saved[7]), dict(saved[8]), list(saved[9])
                self.loops = list(saved[10])
                kind, val = "ok", None
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time limit")
                try:
                    val = thunk()
                except CONTROL as e:
                    kind, val = "exit", e
                except Infeasible:
                    kind = "infeasible"
                self.stats["paths"] += 1
                for i in range(len(pre), len(self.dec)):
                    for alt in range(1, self.arity[i]):
                        work.append(tuple(self.dec[:i]) + (alt,))
                if kind != "infeasible":
                    out.append(Path(kind, val, self.st, list(self.lits), tuple(self.dec)))
                if len(out) > self.MAXPATHS:
                    raise Unsupported("too many paths")
        except Unsupported as e:
            if not saved[5]:
                e.partial = out
            raise
        except Exception as e:
            if type(e).__name__ == "CheckFail":
                e.nested = True
            raise
        finally:
            (self.st, self.dec, self.arity, self.pos, self.lits, self.ctx, self.seqno,
             self.handlers, self.yields, self.callstack, self.loops) = saved
        return out

    # ------------------------------------------------------------ implicit exceptions
    def caught(self, excname):
        if self.splits_all:
            return True
        for hs in self.handlers:
            for h in hs:
                if h is None:
                    return True
                if isinstance(h, str):
                    c, w = getattr(builtins, excname, None), getattr(builtins, h, None)
                    if isinstance(c, type) and isinstance(w, type) and issubclass(c, w):
                        return True
        return False

    def guard(self, excname, ok_lit, msg=""):
        """`ok_lit` must hold, else excname is raised.  Splits only where the exception is observable."""
        if ok_lit is TRUE:
            return
        v = True if ok_lit is True else self.decide_lit(ok_lit)
        if v is True:
            return
        if v is False:
            self.raise_(excname, msg)
        if self.caught(excname):
            if not self.branch(ok_lit):
                self.raise_(excname, msg)
        else:
            if ok_lit.op == "not":
                self.assume(ok_lit.args[0], False)
            else:
                self.assume(ok_lit, True)

    def decide_lit(self, lit):
        if lit.op == "not":
            v = self.decide(lit.args[0])
            return None if v is None else not v
        return self.decide(lit)

    # ------------------------------------------------------------ modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        m = frontend.load(name)
        if m is None:
            return None
        fid = "mod:" + name
        mod = ModV(name, fid)
        self.modules[name] = mod
        self.st.frames[fid] = {"$parent": None, "$mod": name, "$kind": "module", "__name__": const(name), "__path__": T("modpath", name), "__file__": T("modfile", name), "__doc__": NONE, "__package__": const(name)}
        if "." in name:
            parent, leafname = name.rsplit(".", 1)
            p = self.load_module(parent)
            if p is not None:
                self.st.frames[p.fid].setdefault(leafname, mod)
        self.callstack.append((name, [1]))
        try:
            self.run_body(m.tree.body, fid, m)
        finally:
            self.callstack.pop()
        return mod

    def run_body(self, stmts, fid, m=None):
        for s in stmts:
            self.exec(s, fid)

    def import_(self, name, fid):
        mod = self.load_module(name)
        return mod if mod is not None else ExtV(name)

    # ------------------------------------------------------------ names
    def lookup(self, name, fid):
        st = self.st
        f = fid
        first = True
        while f is not None:
            fr = st.frames[f]
            if (first or fr.get("$kind") != "class") and name in fr:
                v = fr[name]
                if v is UNBOUND:
                    self.raise_("UnboundLocalError", name)
                if v.__class__.__name__ == "Poison":
                    raise Unsupported(v.name)
                return v
            if first and fr.get("$kind") == "func" and name in fr["$locals"]:
                self.raise_("UnboundLocalError", name)
            first = False
            f = fr["$parent"]
        return self.builtin(name)

    def builtin(self, name):
        if name in BUILTINS or name in BUILTIN_EXC:
            return BuiltinV(name)
        if name in self.primitives:
            return BuiltinV("$" + name)
        self.raise_("NameError", name)

    primitives = {}

    def store(self, name, val, fid):
        fr = self.st.frames[fid]
        if fr.get("$kind") == "func":
            if name in fr["$global"]:
                self.st.frames["mod:" + fr["$mod"]][name] = val
                return
            if name in fr["$nonlocal"]:
                f = fr["$parent"]
                while f is not None:
                    g = self.st.frames[f]
                    if name in g and g.get("$kind") != "class":
                        g[name] = val
                        return
                    f = g["$parent"]
        fr[name] = val

    # ------------------------------------------------------------ statements
    def exec(self, s, fid):
        if self.callstack:
            self.callstack[-1][1][0] = getattr(s, "lineno", 0)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, fid)

    def block(self, stmts, fid):
        for s in stmts:
            self.exec(s, fid)

    def s_Expr(self, s, fid):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fid)

    def s_Pass(self, s, fid):
        pass

    def s_Global(self, s, fid):
        pass

    s_Nonlocal = s_Global

    def s_Assign(self, s, fid):
        v = self.ev(s.value, fid)
        for t in s.targets:
            self.assign(t, v, fid)

    def s_AnnAssign(self, s, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fid), fid)

    def s_AugAssign(self, s, fid):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fid)
            self.store(t.id, self.augop(s.op, cur, self.ev(s.value, fid)), fid)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fid)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, cur, self.ev(s.value, fid)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fid)
            i = self.ev_index(t.slice, fid)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.augop(s.op, cur, self.ev(s.value, fid)))
        else:
            raise Unsupported("augmented assignment target")

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fid)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fid), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fid), self.ev_index(t.slice, fid), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(t.elts), star[0] if star else None)
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fid)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fid)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star=None):
        S = self.items(v)
        if all(x.op == "one" for x in S.args):
            xs = [x.args[0] for x in S.args]
            if star is None:
                if len(xs) != n:
                    self.raise_("ValueError", "unpack")
                return xs
            if len(xs) < n - 1:
                self.raise_("ValueError", "unpack")
            after = n - star - 1
            mid = xs[star:len(xs) - after]
            return xs[:star] + [self.alloc("list", content=seq([one(x) for x in mid]))] + xs[len(xs) - after:]
        if star is not None:
            if star == n - 1 and all(x.op == "one" for x in S.args[:star]):
                return [x.args[0] for x in S.args[:star]] + [self.alloc("list", content=seq(S.args[star:]))]
            raise Unsupported("starred unpacking of a symbolic sequence")
        self.guard("ValueError", self.rel_eq(length(S), const(n)), "unpack")
        return [self.seq_at(S, const(i)) for i in range(n)]

    def s_Delete(self, s, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.frames[fid].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fid), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fid), self.ev_index(t.slice, fid))
            else:
                raise Unsupported("del target")

    def s_Return(self, s, fid):
        raise ReturnEx(self.ev(s.value, fid) if s.value is not None else NONE, self.func_fid(fid))

    def func_fid(self, fid):
        while self.st.frames[fid].get("$kind") == "comp":
            fid = self.st.frames[fid]["$parent"]
        return fid

    def s_Raise(self, s, fid):
        if s.exc is None:
            cur = self.st.frames[self.func_fid(fid)].get("$exc")
            if cur is None:
                self.raise_("RuntimeError", "No active exception to reraise")
            raise PyRaise(cur, self.where())
        v = self.ev(s.exc, fid)
        if s.cause is not None:
            self.ev(s.cause, fid)
        if isinstance(v, (ClassV, BuiltinV)):
            v = self.call(v, [], {})
        if not isinstance(v, ExcV):
            raise Unsupported(f"raising {v}")
        e = PyRaise(v, self.where())
        e.explicit = True
        raise e

    def s_Assert(self, s, fid):
        if not self.truth(self.ev(s.test, fid)):
            self.raise_("AssertionError")

    def s_If(self, s, fid):
        if self.truth(self.ev(s.test, fid)):
            self.block(s.body, fid)
        else:
            self.block(s.orelse, fid)

    def s_Break(self, s, fid):
        raise BreakEx()

    def s_Continue(self, s, fid):
        raise ContinueEx()

    def s_For(self, s, fid):
        it = self.ev(s.iter, fid)

        tok = ("break", id(s), fid)

        def body(v):
            try:
                self.assign(s.target, v, fid)
                self.block(s.body, fid)
            except ContinueEx:
                pass
            except BreakEx:
                raise StopYield(tok, NONE)

        try:
            self.iterate(it, body)
        except StopYield as e:
            if e.token != tok:
                raise
            return
        self.block(s.orelse, fid)

    def s_While(self, s, fid):
        self.while_loop(s, fid)

    def s_Import(self, s, fid):
        for a in s.names:
            m = self.import_(a.name, fid)
            if a.asname:
                self.store(a.asname, m, fid)
            else:
                top = a.name.split(".")[0]
                self.store(top, self.import_(top, fid) if "." in a.name else m, fid)

    def s_ImportFrom(self, s, fid):
        if s.module == "__future__":
            return
        name = s.module or ""
        if s.level:
            base = self.st.frames[fid]["$mod"] if "$mod" in self.st.frames[fid] else ""
            m = frontend.load(base)
            parts = base.split(".")
            if not (m and m.is_pkg):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = ".".join(parts + ([s.module] if s.module else []))
        mod = self.import_(name, fid)
        for a in s.names:
            if a.name == "*":
                if isinstance(mod, ModV):
                    fr = self.st.frames[mod.fid]
                    al = fr.get("__all__")
                    names = None
                    if al is not None:
                        names = [cval(x) for x in self.as_list(al)]
                    for k, v in list(fr.items()):
                        if (names is not None and k in names) or (names is None and not k.startswith(("_", "$"))):
                            self.store(k, v, fid)
                continue
            if isinstance(mod, ModV):
                fr = self.st.frames[mod.fid]
                if a.name in fr:
                    v = fr[a.name]
                else:
                    v = self.load_module(name + "." + a.name)
                    if v is None:
                        if name.startswith("dwave"):
                            v = ExtV(name + "." + a.name)
                        else:
                            self.raise_("ImportError", a.name)
            else:
                v = self.ext_attr(mod, a.name)
            self.store(a.asname or a.name, v, fid)

    def s_FunctionDef(self, s, fid):
        f = self.make_func(s, fid)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fid)
            v = self.decorate(dv, v, f)
        self.store(s.name, v, fid)

    def make_func(self, node, fid):
        a = node.args
        defaults = tuple(self.ev(d, fid) for d in a.defaults)
        kwd = {x.arg: self.ev(d, fid) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(node, "name", "<lambda>")
        fr = self.st.frames[fid]
        mod = fr.get("$mod", "")
        q = fr.get("$qual")
        f = FuncV(name, node, fid, mod, None, defaults, kwd, (q + "." if q else mod + ".") + name)
        return f

    def decorate(self, d, v, f):
        n = d.name if isinstance(d, (BuiltinV, ExtV)) else None
        if n == "property":
            return PropV("property", v)
        if n in ("functools.cached_property",):
            return PropV("cached", v)
        if n == "staticmethod":
            return PropV("static", v)
        if n == "classmethod":
            return PropV("classm", v)
        if n in ("typing.overload", "abc.abstractmethod", "functools.wraps", "typing.final"):
            return v
        if n in ("functools.lru_cache", "functools.cache"):
            return CachedV(v)
        if n == "contextlib.contextmanager":
            v.contextmanager = True
            return v
        if n in ("dataclasses.dataclass",):
            return v
        if isinstance(d, BoundV) and isinstance(d.func, BuiltinV) and d.func.name in ("prop.setter", "prop.getter", "prop.deleter"):
            p = d.obj
            q = PropV(p.kind, p.fget, p.fset)
            if d.func.name == "prop.setter":
                q.fset = v
            elif d.func.name == "prop.getter":
                q.fget = v
            return q
        if isinstance(d, PropV) and d.kind == "mixedfactory":
            q = PropV("mixed", v)
            q.self_required = d.self_required
            return q
        return self.call(d, [v], {})

    def s_ClassDef(self, s, fid):
        bases, exts, meta = [], [], None
        for b in s.bases:
            v = self.ev(b, fid)
            if isinstance(v, ClassV):
                bases.append(v)
            elif isinstance(v, BuiltinV) and v.name == "object":
                pass
            else:
                exts.append(v)
        for kw in s.keywords:
            if kw.arg == "metaclass":
                meta = self.ev(kw.value, fid)
        mod = self.st.frames[fid].get("$mod", "")
        cfid = f"cls:{s.name}:{self.tick()}"
        c = ClassV(s.name, bases, cfid, mod)
        c.node = s
        c.ext_bases = exts
        c.meta = meta if isinstance(meta, ClassV) else next((b.meta for b in c.mro[1:] if b.meta), None)
        pq = self.st.frames[fid].get("$qual")
        q = (pq + "." if pq else mod + ".") + s.name
        c.qual = q
        self.st.frames[cfid] = {"$parent": fid, "$mod": mod, "$kind": "class", "$qual": q, "$cls": c,
                                "__module__": const(mod), "__doc__": NONE}
        if any(isinstance(e, ExtV) and e.name in ("enum.Enum", "enum.IntEnum") for e in exts):
            c.kind = "enum"
        if any("NamedTuple" in getattr(e, "name", "") for e in exts):
            c.kind = "namedtuple"
        for k in c.mro:
            if self.is_exc_base(k):
                c.kind = "exception"
        self.block(s.body, cfid)
        fr = self.st.frames[cfid]
        for k, v in list(fr.items()):
            f = v.fget if isinstance(v, PropV) else v
            for g in (f, getattr(v, "fset", None)):
                if isinstance(g, FuncV) and g.parent == cfid:
                    g.cls = c
            if c.kind == "enum" and not k.startswith(("$", "__")) and not isinstance(v, (FuncV, PropV)):
                fr[k] = T("enum", q, k)
        if c.kind == "namedtuple":
            c.ntfields = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign)]
        for k in c.mro:
            if k.name in self.native_classes:
                c.native = k.name
        if id(c) not in {id(x) for x in self.classes} and "$noreg" not in self.st.frames[fid]:
            self.register_class(c)
        v = c
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, fid), v, None)
        self.store(s.name, v, fid)

    native_classes = set()

    def register_class(self, c):
        # classes made while analysing a path are local to that path
        if not self.dec and not self.loops:
            self.classes.append(c)

    def is_exc_base(self, c):
        return any(isinstance(e, BuiltinV) and e.name in BUILTIN_EXC for e in c.ext_bases)

    def s_Try(self, s, fid):
        ffid = self.func_fid(fid)
        fin = s.finalbody

        def with_handlers():
            classes = []
            for h in s.handlers:
                if h.type is None:
                    classes.append((h, [None]))
                else:
                    v = self.ev(h.type, fid)
                    vs = self.as_list(v) if isinstance(v, Term) and v.op == "tuple" else [v]
                    classes.append((h, vs))
            flat = tuple((None if v is None else v.name if isinstance(v, BuiltinV) else v) for _, vs in classes for v in vs)
            self.handlers.append(flat)
            try:
                try:
                    self.block(s.body, fid)
                finally:
                    self.handlers.pop()
            except PyRaise as e:
                for h, vs in classes:
                    for v in vs:
                        if self.exc_matches(e.exc, v):
                            old = self.st.frames[ffid].get("$exc")
                            self.st.frames[ffid]["$exc"] = e.exc
                            if h.name:
                                self.store(h.name, e.exc, fid)
                            try:
                                self.block(h.body, fid)
                            finally:
                                if old is None:
                                    self.st.frames[ffid].pop("$exc", None)
                                else:
                                    self.st.frames[ffid]["$exc"] = old
                                if h.name:
                                    self.st.frames[fid].pop(h.name, None)
                            return
                raise
            self.block(s.orelse, fid)

        if not fin:
            return with_handlers()
        try:
            with_handlers()
        except CONTROL:
            self.block(fin, fid)
            raise
        self.block(fin, fid)

    def exc_matches(self, exc, v):
        if v is None:
            return True
        want = v.name if isinstance(v, BuiltinV) else v
        if isinstance(want, ExtV):
            want = want.name.split(".")[-1]
        r = exc.is_a(want)
        if r is None:
            r = self.branch(T("excis", sym(f"exc:{exc.sym or exc.clsname()}"), const(want if isinstance(want, str) else want.name)))
        return r

    def s_With(self, s, fid):
        self.with_items(s.items, s.body, fid)

    def with_items(self, items, body, fid):
        if not items:
            return self.block(body, fid)
        it = items[0]
        m = self.ev(it.context_expr, fid)
        if isinstance(m, GenV):
            return self.with_generator(m, it, items[1:], body, fid)
        if isinstance(m, Term) and m.op == "ctxmgr":
            return self.with_ext(m, it, items[1:], body, fid)
        v = self.call(self.getattr_special(m, "__enter__"), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fid)
        ex = self.getattr_special(m, "__exit__")
        try:
            self.with_items(items[1:], body, fid)
        except PyRaise as e:
            r = self.call(ex, [T("exctype", self.exc_term(e.exc)), self.exc_val(e.exc), T("tb", self.exc_term(e.exc))], {})
            if self.truth(r):
                return
            raise
        except CONTROL:
            self.call(ex, [NONE, NONE, NONE], {})
            raise
        self.call(ex, [NONE, NONE, NONE], {})

    def exc_term(self, exc):
        return const(exc.clsname())

    def exc_val(self, exc):
        return exc

    def with_ext(self, m, it, rest, body, fid):
        kind = m.args[0]
        if it.optional_vars is not None:
            self.assign(it.optional_vars, m.args[1] if len(m.args) > 1 else NONE, fid)
        if kind == "suppress":
            names = m.args[1:]
            self.handlers.append(tuple(n.name if isinstance(n, BuiltinV) else n for n in names))
            try:
                self.with_items(rest, body, fid)
            except PyRaise as e:
                if any(self.exc_matches(e.exc, n) for n in names):
                    return
                raise
            finally:
                self.handlers.pop()
        else:
            self.with_items(rest, body, fid)

    def with_generator(self, g, it, rest, body, fid):
        state = {"n": 0}

        def cb(v):
            state["n"] += 1
            if state["n"] > 1:
                self.raise_("RuntimeError", "generator didn't stop")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fid)
            self.with_items(rest, body, fid)
            return NONE

        self.run_generator(g, cb)
        if state["n"] == 0:
            self.raise_("RuntimeError", "generator didn't yield")

    def s_Match(self, s, fid):
        subj = self.ev(s.subject, fid)
        for c in s.cases:
            if self.match(c.pattern, subj, fid) and (c.guard is None or self.truth(self.ev(c.guard, fid))):
                self.block(c.body, fid)
                return

    def match(self, p, v, fid):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.eq(v, self.ev(p.value, fid)))
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.is_(v, const(p.value)))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fid):
                return False
            if p.name:
                self.store(p.name, v, fid)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fid) for q in p.patterns)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance_(v, self.ev(p.cls, fid))
        raise Unsupported("match pattern")

    # ------------------------------------------------------------ expressions
    def ev(self, e, fid):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fid)

    def e_Constant(self, e, fid):
        if e.value is Ellipsis:
            return BuiltinV("Ellipsis")
        return const(e.value)

    def e_Name(self, e, fid):
        return self.lookup(e.id, fid)

    def e_NamedExpr(self, e, fid):
        v = self.ev(e.value, fid)
        self.store(e.target.id, v, self.func_fid(fid))
        return v

    def e_Attribute(self, e, fid):
        return self.getattr(self.ev(e.value, fid), e.attr)

    def ev_index(self, s, fid):
        if isinstance(s, ast.Slice):
            return SliceV(*[self.ev(x, fid) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        return self.ev(s, fid)

    def e_Slice(self, e, fid):
        return self.ev_index(e, fid)

    def e_Subscript(self, e, fid):
        o = self.ev(e.value, fid)
        return self.getitem(o, self.ev_index(e.slice, fid))

    def e_Starred(self, e, fid):
        raise Unsupported("starred")

    def elems(self, elts, fid):
        segs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.items(self.ev(x.value, fid)).args)
            else:
                segs.append(one(self.ev(x, fid)))
        return seq(segs)

    def e_Tuple(self, e, fid):
        return T("tuple", self.elems(e.elts, fid))

    def e_List(self, e, fid):
        return self.alloc("list", content=self.elems(e.elts, fid))

    def e_Set(self, e, fid):
        r = self.alloc("set", content=EMPTY)
        for x in self.elems(e.elts, fid).args:
            self.set_add(r, x)
        return r

    def e_Dict(self, e, fid):
        r = self.alloc("dict", content=T("dict"))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(r, self.ev(v, fid))
            else:
                kk = self.ev(k, fid)
                self.setitem(r, kk, self.ev(v, fid))
        return r

    def e_Lambda(self, e, fid):
        return self.make_func(e, fid)

    def e_IfExp(self, e, fid):
        return self.ev(e.body, fid) if self.truth(self.ev(e.test, fid)) else self.ev(e.orelse, fid)

    def e_BoolOp(self, e, fid):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fid)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return self.falsy(v)
            if not isand and t:
                return v
        return v

    def falsy(self, v):
        """Value of a falsy operand returned by `and`: keeps it."""
        return v

    def e_UnaryOp(self, e, fid):
        v = self.ev(e.operand, fid)
        if isinstance(e.op, ast.Not):
            return const(not self.truth(v))
        return self.unary(e.op, v)

    def e_BinOp(self, e, fid):
        a = self.ev(e.left, fid)
        return self.binop(e.op, a, self.ev(e.right, fid))

    def e_Compare(self, e, fid):
        left = self.ev(e.left, fid)
        r = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, fid)
            r = self.compare(op, left, right)
            if len(e.ops) == 1:
                return r
            if not self.truth(r):
                return FALSE
            left = right
        return r

    def e_JoinedStr(self, e, fid):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.ev(x.value, fid)
                if x.format_spec is not None:
                    spec = self.e_JoinedStr(x.format_spec, fid)
                    parts.append(T("fmt", self.snap(v), spec))
                elif x.conversion in (114, 97):
                    parts.append(self.to_repr(v))
                else:
                    parts.append(self.to_str(v))
        return cat(parts)

    def e_FormattedValue(self, e, fid):
        return self.to_str(self.ev(e.value, fid))

    def e_Call(self, e, fid):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.zero_super(fid)
        f = self.ev(e.func, fid)
        args, star = [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                S = self.items(self.ev(a.value, fid))
                if all(x.op == "one" for x in S.args):
                    args.extend(x.args[0] for x in S.args)
                else:
                    args.append(StarV(S))
            else:
                args.append(self.ev(a, fid))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fid)
                for kk, vv in self.dict_entries_concrete(d):
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, fid)
        if self.callstack:
            self.callstack[-1][1][0] = e.lineno
        return self.call(f, args, kwargs)

    def zero_super(self, fid):
        f = fid
        while f is not None:
            fr = self.st.frames[f]
            if fr.get("$kind") == "func" and fr.get("$func") is not None and fr["$func"].cls is not None:
                fn = fr["$func"]
                a = fn.node.args
                first = (a.posonlyargs + a.args)[0].arg
                return SuperV(fn.cls, fr[first])
            f = fr["$parent"]
        self.raise_("RuntimeError", "super(): no arguments")

    def comp(self, gens, fid, emit):
        cf = f"comp:{self.tick()}"
        self.st.frames[cf] = {"$parent": fid, "$kind": "comp", "$mod": self.st.frames[fid].get("$mod")}

        def rec(i, itv=None):
            if i == len(gens):
                emit(cf)
                return
            g = gens[i]
            it = itv if itv is not None else self.ev(g.iter, cf if i else fid)

            def body(v):
                self.assign(g.target, v, cf)
                for c in g.ifs:
                    if not self.truth(self.ev(c, cf)):
                        return
                rec(i + 1)

            self.iterate(it, body)

        try:
            rec(0)
        finally:
            self.st.frames.pop(cf, None)

    def e_ListComp(self, e, fid):
        r = self.alloc("list", content=EMPTY)

        def emit(cf):
            v = self.ev(e.elt, cf)
            self.st.cont[r] = seq(self.st.cont[r].args + (one(v),))

        self.comp(e.generators, fid, emit)
        return r

    def e_SetComp(self, e, fid):
        r = self.alloc("set", content=EMPTY)

        def emit(cf):
            self.set_add(r, one(self.ev(e.elt, cf)))

        self.comp(e.generators, fid, emit)
        return r

    def e_DictComp(self, e, fid):
        r = self.alloc("dict", content=T("dict"))

        def emit(cf):
            k = self.ev(e.key, cf)
            self.setitem(r, k, self.ev(e.value, cf))

        self.comp(e.generators, fid, emit)
        return r

    def e_GeneratorExp(self, e, fid):
        # the outermost iterable is evaluated eagerly
        src = self.ev(e.generators[0].iter, fid)
        return GenExpV(e, fid, src)

    def e_Yield(self, e, fid):
        v = self.ev(e.value, fid) if e.value is not None else NONE
        cb = self.yields.get(self.func_fid(fid))
        if cb is None:
            raise Unsupported("yield outside iteration")
        r = cb(v)
        return r if r is not None else NONE

    def e_YieldFrom(self, e, fid):
        cb = self.yields.get(self.func_fid(fid))
        if cb is None:
            raise Unsupported("yield outside iteration")
        self.iterate(self.ev(e.value, fid), lambda v: cb(v) and None)
        return NONE

    # ------------------------------------------------------------ generators
    def run_generator(self, g, cb):
        if isinstance(g, GenExpV):
            cf = f"comp:{self.tick()}"
            self.st.frames[cf] = {"$parent": g.fid, "$kind": "comp", "$mod": self.st.frames[g.fid].get("$mod")}
            gens = g.node.generators

            def rec(i):
                if i == len(gens):
                    cb(self.ev(g.node.elt, cf))
                    return
                c = gens[i]
                it = g.src if i == 0 else self.ev(c.iter, cf)

                def body(v):
                    self.assign(c.target, v, cf)
                    for t in c.ifs:
                        if not self.truth(self.ev(t, cf)):
                            return
                    rec(i + 1)

                self.iterate(it, body)

            rec(0)
            return
        fid = g.fid
        old = self.yields.get(fid)
        self.yields[fid] = cb
        self.callstack.append((g.func.qual, [g.func.node.lineno]))
        try:
            self.block(g.func.node.body, fid)
        except ReturnEx as r:
            if r.fid != fid:
                raise
        finally:
            self.callstack.pop()
            if old is None:
                self.yields.pop(fid, None)
            else:
                self.yields[fid] = old

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        self.stats["calls"] += 1
        if len(self.callstack) > 70:
            raise Unsupported("call depth")
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundV):
            if isinstance(f.func, (FuncV, CachedV)):
                return self.call(f.func, [f.obj] + list(args), kwargs)
            return self.call_native(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, (BuiltinV, ExtV)):
            return self.call_native(f, args, kwargs)
        if isinstance(f, PartialV):
            return self.call(f.func, list(f.args) + list(args), {**f.kwargs, **kwargs})
        if isinstance(f, CachedV):
            return self.call_cached(f, args, kwargs)
        if isinstance(f, PropV) and f.kind == "static":
            return self.call(f.fget, args, kwargs)
        if isinstance(f, PropV) and f.kind == "mixedfactory":
            return self.decorate(f, args[0], None)
        if isinstance(f, ProcV):
            return f.fn(*args, **kwargs)
        return self.call_value(f, args, kwargs)

    def call_cached(self, f, args, kwargs):
        """functools.lru_cache: the first result is shared by later calls with equal arguments."""
        key = ("lru", f, tuple(self.snap(a) if not isinstance(a, (Named,)) else a for a in args),
               tuple(sorted((k, self.snap(v)) for k, v in kwargs.items())) if kwargs else ())
        store = self.st.cont.get(key)
        if store is not None:
            return store
        r = self.call(f.func, args, kwargs)
        self.st.cont[key] = r
        return r

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        fr = {}
        if any(isinstance(x, StarV) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, StarV))
            if a.vararg and i >= len(names) and not any(isinstance(x, StarV) for x in args[:i]):
                segs = []
                for x in args[len(names):]:
                    segs.extend(x.seq.args if isinstance(x, StarV) else (one(x),))
                for n, v in zip(names, args):
                    fr[n] = v
                fr[a.vararg.arg] = T("tuple", seq(segs))
                args = args[:len(names)]
            else:
                # spread over the remaining positional parameters
                S = args[i].seq
                rest = args[i + 1:]
                if rest:
                    raise Unsupported("arguments after a symbolic *args")
                left = [n for n in names[i:] if n not in kwargs]
                self.guard("TypeError", self.rel_eq(length(S), const(len(left))), "arguments")
                args = args[:i] + [self.seq_at(S, const(j)) for j in range(len(left))]
                for n, v in zip(names, args):
                    fr[n] = v
                if a.vararg:
                    fr[a.vararg.arg] = T("tuple", EMPTY)
        else:
            for n, v in zip(names, args):
                fr[n] = v
            if len(args) > len(names):
                if not a.vararg:
                    self.raise_("TypeError", f"{f.name}() takes {len(names)} positional arguments")
                fr[a.vararg.arg] = T("tuple", seq([one(x) for x in args[len(names):]]))
            elif a.vararg:
                fr[a.vararg.arg] = T("tuple", EMPTY)
        extra = {}
        kwnames = {x.arg for x in a.kwonlyargs} | {x.arg for x in a.args}
        for k, v in kwargs.items():
            if k in kwnames:
                if k in fr:
                    self.raise_("TypeError", f"{f.name}() got multiple values for argument '{k}'")
                fr[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_("TypeError", f"{f.name}() got an unexpected keyword argument '{k}'")
        if a.kwarg:
            d = self.alloc("dict", content=T("dict", *[one(pair(const(k), v)) for k, v in extra.items()]))
            fr[a.kwarg.arg] = d
        nd = len(f.defaults)
        for n, v in zip(names[len(names) - nd:], f.defaults):
            fr.setdefault(n, v)
        for n, v in f.kwdefaults.items():
            fr.setdefault(n, v)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in fr:
                self.raise_("TypeError", f"{f.name}() missing required argument '{n}'")
        return fr

    def call_func(self, f, args, kwargs):
        hook = self.overrides.get(f.qual)
        if hook is not None:
            return hook(self, f, args, kwargs)
        fr = self.bind(f, args, kwargs)
        loc, glob, nonl = assigned_names(f.node)
        fid = f"f:{f.qual}:{self.tick()}"
        fr.update({"$parent": f.parent, "$mod": f.module, "$kind": "func", "$func": f, "$locals": loc,
                   "$global": glob, "$nonlocal": nonl, "$qual": f.qual + ".<locals>"})
        self.st.frames[fid] = fr
        self.visited.add(f.qual)
        if is_generator(f.node):
            return GenV(f, fid)
        self.callstack.append((f.qual, [f.node.lineno]))
        if isinstance(f.node, ast.Lambda):
            try:
                return self.ev(f.node.body, fid)
            finally:
                self.callstack.pop()
        try:
            self.block(f.node.body, fid)
        except ReturnEx as r:
            if r.fid == fid:
                return r.value
            raise
        finally:
            self.callstack.pop()
        return NONE

    overrides = {}

    def instantiate(self, c, args, kwargs):
        if c.kind == "exception":
            return ExcV(c, tuple(args))
        if c.kind == "namedtuple":
            vals = list(args)
            for n in c.ntfields[len(vals):]:
                if n not in kwargs:
                    self.raise_("TypeError", "namedtuple arguments")
                vals.append(kwargs[n])
            return T("ntup", c, seq([one(v) for v in vals]))
        if c.kind == "enum":
            raise Unsupported("enum lookup by value")
        r = self.alloc("inst", c)
        self.init_instance(r, c)
        new = self.class_lookup(c, "__new__")
        if new is not None:
            raise Unsupported("__new__")
        init = self.class_lookup(c, "__init__")
        if init is not None:
            self.call(BoundV(init, r) if not isinstance(init, BoundV) else init, args, kwargs)
        elif self.class_meta_is_dataclass(c):
            raise Unsupported("dataclass construction")
        elif args or kwargs:
            self.raise_("TypeError", f"{c.name}() takes no arguments")
        return r

    def class_meta_is_dataclass(self, c):
        return False

    def init_instance(self, r, c):
        if c.native == "cyRegister":
            self.st.cont[r] = EMPTY

    def class_lookup(self, c, name, after=None):
        mro = c.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            fr = self.st.frames[k.fid]
            if k.name in self.native_classes:
                b = f"{k.name}.{name}"
                if b in self.natives:
                    return BuiltinV(b)
            if name in fr and not name.startswith("$"):
                return fr[name]
        return None

    natives = {}


class _Unbound(Named):
    name = "UNBOUND"


UNBOUND = _Unbound()


class SliceV(Named):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step, self.name = lo, hi, step, "slice"


class StarV(Named):
    def __init__(self, s):
        self.seq, self.name = s, "star"


class CachedV(Named):
    def __init__(self, func):
        self.func, self.name = func, f"cached {func.name}"


class GenExpV(Named):
    def __init__(self, node, fid, src):
        self.node, self.fid, self.src, self.name = node, fid, src, "genexpr"


class ProcV(Named):
    def __init__(self, fn, name="proc"):
        self.fn, self.name = fn, name
