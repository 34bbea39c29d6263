"""Non-term abstract values and the abstract machine state."""
from __future__ import annotations
import builtins
from .terms import *


class Named:
    name = "?"

    def __repr__(self):
        return f"<{self.name}>"


class ClassV(Named):
    """A class of the analysed program (namespace lives in the state, so it can be mutated)."""

    def __init__(self, name, bases, fid, module, native=None):
        self.name, self.bases, self.fid, self.module = name, bases, fid, module
        self.native = native            # name of a natively modelled base
        self.qual = f"{module}.{name}"
        self.mro = self._mro()
        self.ext_bases = []
        self.kind = None                # 'enum' | 'namedtuple' | 'exception' | None
        self.ntfields = None
        self.meta = None

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def sub(self, other):
        return other in self.mro


class FuncV(Named):
    def __init__(self, name, node, parent, module, cls=None, defaults=(), kwdefaults=None, qual=None):
        self.name, self.node, self.parent, self.module = name, node, parent, module
        self.cls, self.defaults, self.kwdefaults = cls, defaults, kwdefaults or {}
        self.qual = qual or f"{module}.{name}"
        self.contextmanager = False


class PropV(Named):
    def __init__(self, kind, fget, fset=None):
        self.kind, self.fget, self.fset = kind, fget, fset   # property | cached | mixed | static | classm
        self.name = f"{kind}:{getattr(fget, 'name', '?')}"
        self.self_required = FALSE


class BoundV(Named):
    def __init__(self, func, obj):
        self.func, self.obj = func, obj
        self.name = f"bound {getattr(func, 'name', func)} of {show(obj)}"

    def __hash__(self):
        return hash((id(self.func) if isinstance(self.func, FuncV) else self.func, self.obj))

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func == self.func and o.obj == self.obj


class SignatureV(Named):
    """inspect.signature of a function."""
    def __init__(self, func, parameters):
        self.name, self.func, self.parameters = "signature", func, parameters


class BuiltinV(Named):
    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("bi", self.name))

    def __eq__(self, o):
        return isinstance(o, BuiltinV) and o.name == self.name


class ExtV(Named):
    def __init__(self, path):
        self.path = self.name = path

    def __hash__(self):
        return hash(("ext", self.path))

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path


class ModV(Named):
    def __init__(self, name, fid):
        self.name, self.fid = name, fid


class SuperV(Named):
    def __init__(self, cls, obj):
        self.cls, self.obj, self.name = cls, obj, "super"


class PartialV(Named):
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs, self.name = func, args, kwargs, "partial"


class GenV(Named):
    def __init__(self, func, fid):
        self.func, self.fid, self.name = func, fid, f"generator {func.name}"


class ExcV(Named):
    """An exception value: class is a builtin exception name or a ClassV; None = any exception."""

    def __init__(self, cls, args=(), sym=None):
        self.cls, self.args, self.sym = cls, args, sym
        self.name = f"exc {self.clsname()}"

    def clsname(self):
        if self.cls is None:
            return "AnyException"
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def is_a(self, want):
        """want: builtin exception name or ClassV -> True/False/None(unknown)"""
        if self.cls is None:
            if want in ("BaseException",):
                return True
            return None
        if isinstance(self.cls, ClassV):
            if isinstance(want, ClassV):
                return self.cls.sub(want)
            return want in exc_bases(self.cls)
        if isinstance(want, ClassV):
            return False
        c = getattr(builtins, self.cls, None)
        w = getattr(builtins, want, None)
        if isinstance(c, type) and isinstance(w, type):
            return issubclass(c, w)
        return self.cls == want


def exc_bases(cls):
    """Names of builtin exceptions a repo exception class derives from."""
    out = {"BaseException", "Exception"}
    for k in cls.mro:
        for b in k.ext_bases:
            n = b.name.split(".")[-1] if isinstance(b, Named) else str(b)
            c = getattr(builtins, n, None)
            if isinstance(c, type) and issubclass(c, BaseException):
                out |= {x.__name__ for x in c.__mro__}
    return out


class HObj:
    __slots__ = ("kind", "cls", "initial")

    def __init__(self, kind, cls=None, initial=False):
        self.kind, self.cls, self.initial = kind, cls, initial


class Unsupported(Exception):
    """The analysis does not model something; the path is given up as undecided."""


class Infeasible(Exception):
    """The current combination of decisions cannot happen."""


class PyRaise(Exception):
    def __init__(self, exc, where=None):
        self.exc, self.where = exc, where


class ReturnEx(Exception):
    def __init__(self, value, fid):
        self.value, self.fid = value, fid


class BreakEx(Exception):
    def __init__(self, lid=None):
        self.lid = lid


class ContinueEx(Exception):
    pass


class State:
    __slots__ = ("frames", "heap", "fields", "cont", "facts", "num", "trace", "cnt", "types", "imprecise",
                 "epoch", "where", "notes", "updates")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.fields = {}
        self.cont = {}
        self.facts = {}
        self.num = {}
        self.trace = ()
        self.cnt = 0
        self.types = {}
        self.imprecise = ()
        self.epoch = {}
        self.where = ()
        self.notes = ()
        self.updates = ()

    def clone(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.fields = dict(self.fields)
        s.cont = dict(self.cont)
        s.facts = dict(self.facts)
        s.num = dict(self.num)
        s.trace = self.trace
        s.cnt = self.cnt
        s.types = dict(self.types)
        s.imprecise = self.imprecise
        s.epoch = dict(self.epoch)
        s.where = self.where
        s.notes = self.notes
        s.updates = self.updates
        return s
