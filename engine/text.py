"""Text of programs up to white space, and OpenQASM gate declarations."""
import re
from .terms import *
from .values import Unsupported

PUNCT = ";,(){}[]"


def _tight(s, before="", after=""):
    """Constant text with white space collapsed, and dropped beside punctuation (comments keep the end of their line)."""
    out = []
    for k, line in enumerate(re.split(r"(//[^\n]*\n?)", s)):
        if k % 2:
            end = "\n" if line.endswith("\n") else ""
            out.append(re.sub(r"\s+", " ", line).strip() + end)
        else:
            line = re.sub(r"\s+", " ", line)
            line = re.sub(r" ?([;,(){}\[\]]) ?", r"\1", line)
            out.append(line)
    r = out[0]
    for k in range(1, len(out)):
        x = out[k]
        if r.endswith("\n"):
            x = x.lstrip(" ")
        if x.startswith("//"):
            r = r.rstrip(" ")
        r += x
    return r


def _ends_closed(t):
    """Whether a text certainly ends with punctuation or a comment line."""
    if t.op == "cat":
        return _ends_closed(t.args[-1])
    if is_str_const(t):
        return cval(t) != "" and (cval(t)[-1] in PUNCT or cval(t)[-1] == "\n")
    if t.op == "fold":
        return all(_seg_closed(x) for x in t.args[0].args)
    return False


def _seg_closed(x):
    """Whether every element of the segment is certainly closed text (or empty)."""
    if x.op == "one":
        return is_str_const(x.args[0]) and cval(x.args[0]) == "" or _ends_closed(x.args[0])
    if x.op == "many":
        return _tree_closed(x.args[2])
    return False


def _tree_closed(t):
    if t.op == "ite":
        return _tree_closed(t.args[1]) and _tree_closed(t.args[2])
    if t.op == "leaf":
        return all(_seg_closed(x) for x in t.args)
    return False


def _elements(s, f):
    """The segments of s with f on every element, or None."""
    if s.op == "one":
        return one(f(s.args[0]))
    if s.op == "many":
        return T("many", s.args[0], s.args[1], _tree(s.args[2], f))
    raise Unsupported(f"text of {s.op}")


def _tree(t, f):
    if t.op == "ite":
        return ite(t.args[0], _tree(t.args[1], f), _tree(t.args[2], f))
    if t.op == "leaf":
        return T("leaf", *[_elements(x, f) for x in t.args])
    raise Unsupported(f"text of {t.op}")


def squeeze(t, edge=True):
    """The text with white space collapsed where it carries no meaning."""
    parts = []

    def push(x):
        if x.op == "cat":
            for y in x.args:
                push(y)
        elif x.op == "strip":
            y = squeeze(x.args[0])
            parts.append(("strip", None))
            for z in (y.args if y.op == "cat" else [y]):
                parts.append(("part", z))
            parts.append(("strip", None))
        elif x.op == "fold":
            parts.append(("part", T("fold", seq([_elements(s, lambda v: squeeze(v, False)) for s in x.args[0].args]))))
        elif x.op == "join":
            sep, S = x.args
            if not is_str_const(sep):
                raise Unsupported("joined text")
            els = [_elements(s, lambda v: squeeze(v, False)) for s in S.args]
            if cval(sep).strip() == "" and all(_seg_closed(e) for e in els):
                parts.append(("part", T("fold", seq(els))))
            else:
                parts.append(("part", T("join", const(_tight(cval(sep))), seq(els))))
        elif x.op == "ite":
            parts.append(("part", ite(x.args[0], squeeze(x.args[1], False), squeeze(x.args[2], False))))
        else:
            parts.append(("part", x))

    push(t)
    # drop the marks of strip(); they leave nothing but what is at the edges
    flat = [x for k, x in parts if k == "part" and not (is_str_const(x) and cval(x) == "")]
    merged = []
    for x in flat:
        if merged and is_str_const(x) and is_str_const(merged[-1]):
            merged[-1] = const(cval(merged[-1]) + cval(x))
        else:
            merged.append(x)
    out = []
    for k, x in enumerate(merged):
        if not is_str_const(x):
            out.append(x)
            continue
        s = _tight(cval(x))
        if (k == 0 and edge) or (k and _ends_closed(merged[k - 1])):
            s = s.lstrip(" ") if k else s.lstrip()
        if k == len(merged) - 1 and edge:
            s = s.rstrip()
        out.append(const(s))
    return cat(out)


_CALL = re.compile(r"\s*([a-z]\w*)\s*(?:\(([^()]*)\))?\s*([^;()]*);", re.S)


def declaration(s):
    """(name, parameters, qubits, ((gate, arguments, operands), ...)) of an OpenQASM gate declaration, or None."""
    m = re.fullmatch(r"\s*gate\s+([a-z]\w*)\s*(?:\(([^()]*)\))?([^{}]*)\{([^{}]*)\}\s*", s, re.S)
    if not m:
        return None

    def names(x):
        return tuple(y.strip() for y in (x or "").split(",") if y.strip())
    body, pos, calls = m.group(4), 0, []
    while body[pos:].strip():
        c = _CALL.match(body, pos)
        if not c:
            return None
        calls.append((c.group(1), names(c.group(2)), names(c.group(3))))
        pos = c.end()
    return m.group(1), names(m.group(2)), names(m.group(3)), tuple(calls)
