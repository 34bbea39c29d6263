"""The generated simulation kernels: regenerated from the repository's generator into a scratch folder.

Gives the C source (ops.h), the Cython wrappers (ops.pxd) and the wrappers' signatures.
"""
from __future__ import annotations
import ast
import os
import re
import shutil
import subprocess
import tempfile
from . import frontend, ckernel

PY = "/opt/venv/bin/python"
_cache = {}


class GenerationFailed(Exception):
    pass


def generate():
    repo = frontend.REPO
    if repo in _cache:
        return _cache[repo]
    d = tempfile.mkdtemp(prefix="kernels")
    try:
        os.makedirs(os.path.join(d, "dwave/gate/simulator"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent")
        script = os.path.join(repo, "dwave/gate/simulator/operation_generation.py")
        r = subprocess.run([PY if os.path.exists(PY) else "python3", script], cwd=d, env=env, capture_output=True, text=True, timeout=120)
        if r.returncode:
            raise GenerationFailed(r.stderr[-500:])
        out = {}
        for n in ("ops.h", "ops.pxd"):
            p = os.path.join(d, "dwave/gate/simulator", n)
            out[n] = open(p).read() if os.path.exists(p) else None
        if None in out.values():
            raise GenerationFailed("ops.h or ops.pxd not written")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _cache[repo] = out
    return out


def wrapper_source():
    """The wrappers as Python text; C functions are imported from an opaque module."""
    text = generate()["ops.pxd"]
    names = re.findall(r'^\s+[\w\.]+(?:\s*\*)?\s+(\w+)\s+"(\w+)"\s*\(', text, re.M)
    py = frontend.cython_to_python(text, "ops.pxd")
    imp = "from dwave.gate.simulator.cops import address_of\n" + "".join(f"from dwave.gate.simulator.cops import {c} as {n}\n" for n, c in names)
    return imp + py


def wrapper_module():
    tree = ast.parse(wrapper_source())
    return frontend.Module("dwave.gate.simulator.ops", "ops.pxd", tree, False)


def signatures():
    """{wrapper: [(parameter, default or None)]}"""
    key = (frontend.REPO, "sig")
    if key not in _cache:
        out = {}
        for f in ast.parse(wrapper_source()).body:
            if isinstance(f, ast.FunctionDef):
                a = f.args
                names = [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
                ds = [None] * (len(a.args) - len(a.defaults)) + list(a.defaults) + list(a.kw_defaults)
                out[f.name] = [(n, ast.literal_eval(d) if d is not None else None) for n, d in zip(names, ds)]
        _cache[key] = out
    return _cache[key]


def c_functions():
    """The kernels, parsed."""
    key = (frontend.REPO, "c")
    if key not in _cache:
        _cache[key] = ckernel.Parser(generate()["ops.h"]).unit()
    return _cache[key]


def meaning(name):
    """What a C kernel does, found without regard to parameter names.

    ("gate"|"swap", little, n, state, matrix, targets, controls), ("project", little, n, state, qubit, factor, rows) or
    ("weight", little, n, state, qubit, rows), where n, state, ... are parameter positions; or an exception."""
    key = (frontend.REPO, "meaning", name)
    if key not in _cache:
        try:
            _cache[key] = _meaning(name)
        except (ckernel.Unclear, ckernel.Wrong) as e:
            _cache[key] = e
    if isinstance(_cache[key], Exception):
        raise _cache[key]
    return _cache[key]


def _meaning(name):
    funcs = c_functions()
    if name not in funcs:
        raise ckernel.Unclear(f"no C function {name}")
    params = funcs[name][3]
    ints = [i for i, (ty, _) in enumerate(params) if not ty[1] and ty[0] in ckernel.INT64]
    ptrs = [i for i, (ty, _) in enumerate(params) if ty[1] == "*"]
    reals = [i for i, (ty, _) in enumerate(params) if not ty[1] and ty[0] in ("double", "float")]
    if len(ints) + len(ptrs) + len(reals) != len(params) or len(ptrs) > 2 or not ptrs or len(ints) < 2 or len(reals) > 1:
        raise ckernel.Unclear(f"parameters of {name}")
    unclear, wrong = None, None
    for n in ints:
        for st in ptrs:
            for little in (True, False):
                roles = [("n",) if i == n else ("qubit", i) if i in ints else ("state",) if i == st else ("matrix",) if i in ptrs else ("factor",) for i in range(len(params))]
                try:
                    found = _classified(funcs, name, roles, little, n, st, ptrs, reals, ckernel.summarise(funcs, name, roles, little))
                    if found:
                        return found
                except ckernel.Wrong as e:
                    if n == ints[0] and st == ptrs[0]:
                        wrong = wrong or (little, e)
                        if wrong[0] != little:
                            wrong = (None, e if str(little).lower() in name or ("little" in name) == little else wrong[1])
                except ckernel.Unclear as e:
                    if n == ints[0] and st == ptrs[0]:
                        # not decided for all sizes: look for one size at which it goes wrong
                        bad = ckernel.refuted(funcs, name, roles, little, lambda out: _classified(funcs, name, roles, little, n, st, ptrs, reals, out))
                        if bad is None:
                            unclear = e
                        else:
                            wrong = wrong or (little, bad)
                            if wrong[0] != little:
                                wrong = (None, bad if ("little" in name) == little else wrong[1])
    if unclear is None and wrong is not None:
        raise wrong[1]
    raise unclear or ckernel.Unclear(f"meaning of {name}")


def _classified(funcs, name, roles, little, n, st, ptrs, reals, out):
    qubits = [r[1] for r in roles if r[0] == "qubit"]
    other = [i for i in ptrs if i != st]
    line = funcs[name][5]
    if out[0] == "norm":
        if len(qubits) != 1:
            raise ckernel.Unclear("norm over several qubits")
        rows = tuple(sorted((tuple(row_of(dict(r), line)) for r in out[1]), key=repr))
        return ("weight", little, n, st, qubits[0], rows)
    if reals:
        if len(qubits) != 1:
            raise ckernel.Unclear("scaled update of several qubits")
        rows = []
        for b in (0, 1):
            r = out[1].get((b,))
            if r is None:
                raise ckernel.Wrong("a scaled update leaves some amplitudes unscaled", line)
            if any(g.count(("factor",)) != 1 for g, _ in r):
                raise ckernel.Wrong("a scaled update does not scale each amplitude once: " + ckernel.describe(out[1]), line)
            rows.append(tuple(row_of({(tuple(x for x in g if x != ("factor",)), a): c for (g, a), c in r.items()})))
        return ("project", little, n, st, qubits[0], reals[0], tuple(rows))
    c = ckernel.classify(out[1], qubits)
    if c is None:
        raise ckernel.Wrong("the update is not that of a controlled gate or swap: " + ckernel.describe(out[1]), line)
    return (c[0], little, n, st, other[0] if other else None, c[1], c[2])


def row_of(r, line=0):
    """Coefficients of the two amplitudes."""
    if any(("absolute value",) in g for g, a in r):
        raise ckernel.Wrong("absolute values are summed instead of their squares", line)
    if any(g or len(a) != 1 for g, a in r):
        raise ckernel.Unclear("row of a projection")
    return [r.get(((), ((b,),)), 0j) for b in (0, 1)]
