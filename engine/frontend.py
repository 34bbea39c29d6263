"""Front ends: Python sources and Cython sources (reduced to Python syntax) -> Python AST.

Cython is reduced line by line on the token stream: C type annotations, casts and address-of
operators carry no behaviour the analyses look at, except casts that build C pointers, which are
dropped too (the pointee is the value).  `cpdef/cdef` functions become plain functions.
"""
from __future__ import annotations
import ast
import os
import re
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class FrontendError(Exception):
    pass


# ------------------------------------------------------------------ Cython -> Python
_CTYPES = r"(?:unsigned\s+|const\s+)*[A-Za-z_][\w\.]*(?:\s*\[[^\]\n]*\])?(?:\s*\*+)?"


def _split_top(s, sep=","):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def _strip_arg(a):
    """`uint64_t target0` -> `target0`; `object v=None` -> `v=None`."""
    a = a.strip()
    if not a or a.startswith("*") and re.match(r"\*{1,2}\w+$", a):
        return a
    if a in ("*", "/"):
        return a
    # split default
    depth, eq = 0, None
    for i, ch in enumerate(a):
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        elif ch == "=" and depth == 0:
            eq = i
            break
    head, default = (a, "") if eq is None else (a[:eq], a[eq:])
    if re.search(r"\w\s*:\s*\S", re.sub(r"\[[^\]]*\]", "", head)):  # python annotation
        return a
    m = re.findall(r"[A-Za-z_]\w*", re.sub(r"\[[^\]]*\]", " ", head))
    if not m:
        return a
    return m[-1] + default


def _mask_strings(src):
    """Replaces string/comment contents by same-length placeholders; returns masked, restore-list."""
    out = []
    i, n = 0, len(src)
    store = []
    while i < n:
        ch = src[i]
        if ch == "#":
            j = src.find("\n", i)
            j = n if j < 0 else j
            i = j
            continue
        if ch in "\"'":
            q = src[i:i + 3] if src[i:i + 3] in ('"""', "'''") else ch
            j = i + len(q)
            while j < n:
                if src[j] == "\\":
                    j += 2
                    continue
                if src.startswith(q, j):
                    break
                j += 1
            j += len(q)
            store.append(src[i:j])
            out.append(f"\x00{len(store) - 1}\x00" + "\n" * 0)
            i = j
            continue
        out.append(ch)
        i += 1
    return "".join(out), store


def _ssize(a):
    return ": 'Py_ssize_t'" if re.match(r"Py_ssize_t\s+\w+\s*$", a.strip()) else ""


def add_conversions(tree):
    """Arguments of integer type are converted (or refused) on entry."""
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            pre = []
            for a in f.args.args:
                if isinstance(a.annotation, ast.Constant) and a.annotation.value == "Py_ssize_t":
                    pre.append(ast.parse(f"{a.arg} = __ssize__({a.arg})").body[0])
                    a.annotation = None
            for x in pre:
                for y in ast.walk(x):
                    if hasattr(y, "lineno"):
                        y.lineno = y.end_lineno = f.lineno
            if pre:
                d = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
                f.body[d:d] = pre
    tree.body[:0] = ast.parse("from specs._cpython import PyLong_Check, PyDict_Size, PyDict_Contains, PyDict_GetItemWithError, __ssize__").body


def cython_to_python(src, path="<pyx>"):
    masked, store = _mask_strings(src)
    lines = masked.split("\n")
    # join continuation lines inside brackets into logical lines, remembering the line number
    logical = []
    buf, start, depth = "", None, 0
    for no, line in enumerate(lines, 1):
        nls = sum(store[int(m)].count("\n") for m in re.findall("\x00(\\d+)\x00", line))
        if depth == 0:
            buf, start = line, no
        else:
            buf += " " + line.strip()
        code = re.sub("\x00\\d+\x00", "", line)
        depth += sum(code.count(c) for c in "([{") - sum(code.count(c) for c in ")]}")
        if depth <= 0:
            depth = 0
            if buf.rstrip().endswith("\\"):
                depth = 0
            logical.append((start, buf))
    out = []
    skip_indent = None
    for no, line in logical:
        ind = len(line) - len(line.lstrip(" "))
        body = line.strip()
        if skip_indent is not None:
            if not body or ind > skip_indent:
                continue
            skip_indent = None
        if not body:
            out.append("")
            continue
        pre = line[:ind]
        if re.match(r"cdef\s+extern\b", body):
            skip_indent = ind
            continue
        m = re.match(r"cimport\s+(.*)$", body)
        if m:
            out.append(f"{pre}import {m.group(1)}")
            continue
        m = re.match(r"from\s+(\S+)\s+cimport\s+(.*)$", body)
        if m and m.group(1).startswith("cpython."):
            out.append(f"{pre}pass")
            continue
        if m:
            out.append(f"{pre}from {m.group(1)} import {m.group(2)}")
            continue
        m = re.match(r"cdef\s+class\s+(\w+)\s*(\(.*\))?\s*:(.*)$", body)
        if m:
            out.append(f"{pre}class {m.group(1)}{m.group(2) or ''}:{m.group(3)}")
            continue
        m = re.match(r"(?:cpdef|cdef)\s+(?:inline\s+)?(.*?)(\w+)\s*\((.*)\)\s*(?:except\s*\??\s*[-\w\.\*]+|noexcept)?\s*(?:nogil)?\s*:\s*(.*)$", body)
        if m and not re.search(r"=", m.group(1)):
            args = ", ".join(_strip_arg(a) + _ssize(a) for a in _split_top(m.group(3)))
            out.append(f"{pre}def {m.group(2)}({args}): {m.group(4)}".rstrip())
            continue
        m = re.match(r"def\s+(\w+)\s*\((.*)\)\s*(->.*)?:\s*(.*)$", body)
        if m:
            args = ", ".join(_strip_arg(a) for a in _split_top(m.group(2)))
            out.append(f"{pre}def {m.group(1)}({args}){' ' + m.group(3) if m.group(3) else ''}: {m.group(4)}".rstrip())
            continue
        m = re.match(r"cdef\s+(.*)$", body)
        if m:
            rest = m.group(1)
            if rest.endswith(":"):
                raise FrontendError(f"{path}:{no}: unsupported cdef block")
            decls = _split_top(rest)
            stm = []
            first = True
            for d in decls:
                eqm = re.match(r"([^=]*?)=(?!=)(.*)$", d, re.S)
                if eqm:
                    name = re.findall(r"[A-Za-z_]\w*", re.sub(r"\[[^\]]*\]", " ", eqm.group(1)))[-1]
                    stm.append(f"{name} = {eqm.group(2).strip()}")
            out.append(pre + ("; ".join(stm) if stm else "pass"))
            continue
        out.append(line)
    text = "\n".join(out)
    # casts `<type*>expr` / `<type>expr` and address-of
    text = re.sub(r"<\s*[A-Za-z_][\w\.]*\s*\**\s*>\s*(?=[&\w(\x00])(?<![\w\)\]]\s>)", "\x01", text)
    text = re.sub("\x01", "", text)
    text = re.sub(r"(?<=[(,=\s])&(\w+)\s*\[\s*0\s*(?:,\s*0\s*)*\]", r"\1", text)
    text = re.sub(r"(?<=[(,=\s])&(\w+)\s*\[([^\[\]]*)\]", r"address_of(\1, \2)", text)
    text = re.sub(r"\bNULL\b", "None", text)
    text = re.sub("\x00(\\d+)\x00", lambda m: store[int(m.group(1))], text)
    return text


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg


_cache = {}
MODELS = ("pyqir", "re")  # libraries with a contract in specs/models


def load(name, extra_dirs=()):
    """Finds and parses dotted module `name` in the repository; None if it is not ours."""
    key = (REPO, name)
    if key in _cache:
        return _cache[key]
    rel = name.replace(".", "/")
    r = None
    if name == "specs" or name.startswith("specs."):
        base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    elif name.split(".")[0] in MODELS:
        base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "models")
    else:
        base = REPO
    for cand, pkg in ((rel + "/__init__.py", True), (rel + ".py", False), (rel + ".pyx", False)):
        p = os.path.join(base, cand)
        if os.path.isfile(p):
            src = open(p).read()
            text = cython_to_python(src, p) if p.endswith(".pyx") else src
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(text)
                    if p.endswith(".pyx"):
                        add_conversions(tree)
            except SyntaxError as e:
                if p.endswith(".pyx"):
                    raise FrontendError(f"{p}: cannot reduce Cython source: {e} :: {text.splitlines()[(e.lineno or 1) - 1]}")
                raise FrontendError(f"{p}: {e}")
            r = Module(name, p, tree, pkg)
            break
    _cache[key] = r
    return r


if __name__ == "__main__":
    import sys
    print(cython_to_python(open(sys.argv[1]).read()))
