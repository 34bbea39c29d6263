#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: analyses /repo's current sources for one property.

exit 0: no violation (known findings are printed), exit 1: VIOLATION line, exit 2: analysis broken.
"""
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
sys.setrecursionlimit(30000)

KNOWN = os.path.join(HERE, "known_findings.txt")


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) match=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def special(pid):
    """Checks that do not run on scenarios: module checks/<pid>.py with run(tier) -> dict."""
    p = os.path.join(HERE, "special", pid + ".py")
    if not os.path.exists(p):
        return None
    import importlib
    return importlib.import_module(f"special.{pid}")


def work(args):
    i, limit = args
    from engine import scen
    I, fns = STATE["I"], STATE["fns"]
    f = fns[i]
    try:
        o = scen.run_scenario(I, f, limit)
    except scen.Anchor as e:
        return {"name": f.name, "anchor": str(e)}
    return {
        "name": f.name, "title": o.title, "paths": o.paths, "ok": o.ok, "obligations": o.obligations, "loops": o.loops,
        "functions": sorted(o.functions), "seconds": round(o.seconds, 2),
        "violations": [(m, w, [("" if v else "not ") + scen.short(x, 160) for x, v in lits]) for m, w, lits in o.violations],
        "undecided": sorted({(str(m), str(w)) for m, w, _ in o.undecided}),
    }


STATE = {}


def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    rc, ev, lines = analyse(pid, tier)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", **ev, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for l in lines:
        print(l)
    return rc


def analyse(pid, tier):
    from engine import scen, frontend
    results, extra = [], {}
    assumptions = []
    sp = special(pid)
    spec = os.path.join(HERE, "specs", pid + ".py")
    if os.path.exists(spec):
        I = scen.new_engine()
        fns = scen.load_spec(I, pid)
        if not fns:
            raise RuntimeError("no scenarios")
        STATE.update(I=I, fns=fns)
        limit = 150 if tier == "quick" else 600
        n = min(len(fns), int(os.environ.get("VERIF_JOBS", "8")))
        order = [(i, limit) for i in range(len(fns))]
        if n <= 1:
            results = [work(x) for x in order]
        else:
            with mp.get_context("fork").Pool(n, maxtasksperchild=4) as pool:
                results = pool.map(work, order, chunksize=1)
    if sp is not None:
        r = sp.run(tier)
        results += r["results"]
        extra = r.get("extra", {})
        assumptions += r.get("assumptions", [])
    if not results:
        raise RuntimeError(f"no analysis for {pid}")
    known = known_findings(pid)
    lines, nviol, shown = [], 0, set()
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for r in results:
        if "anchor" in r:
            raise scen.Anchor(r["anchor"])
        seen = {}
        for m, w, lits in r["violations"]:
            seen.setdefault((m, str(w)), lits)
        for (m, w), lits in seen.items():
            k = next((k for k in known if k[0] == r["name"] and k[1].search(m)), None)
            if k is not None:
                if k[2] not in shown:
                    shown.add(k[2])
                    lines.append(f"KNOWN-FINDING: property={pid} {k[2]}")
                continue
            nviol += 1
            if nviol > 10:
                continue
            path = os.path.join(rdir, f"{pid}-{r['name']}-{nviol}.txt")
            with open(path, "w") as fh:
                fh.write(f"property {pid}\ncontract {r['name']}: {r['title']}\nviolated: {m}\nat: {w}\non the path where:\n")
                for l in lits:
                    fh.write(f"  {l}\n")
                fh.write("functions analysed:\n" + "".join(f"  {f}\n" for f in r["functions"]))
            lines.append(f"{r['name']}: {m}\n    at {w}\n    when {' & '.join(lits)[:600]}")
            lines.append(f"VIOLATION property={pid} replay={path}")
    und = [f"{r['name']}: {m} @ {w}" for r in results for m, w in r["undecided"]]
    fnset = sorted({f for r in results for f in r["functions"]})
    paths = sum(r["paths"] for r in results)
    cov = {
        "explanation": "Path-partitioned abstract interpretation of the functions listed under functions_analysed (parsed from the current "
                       "sources, loops summarised by one generic iteration); each contract is checked on every trace partition. "
                       "paths_decided counts partitions where all obligations were discharged; undecided lists those outside the "
                       "engine's fragment, which never raise an alarm." if not extra.get("explanation") else extra["explanation"],
        "contracts": [{k: r[k] for k in ("name", "title", "paths", "ok", "obligations", "loops", "seconds")} for r in results],
        "paths_analysed": paths,
        "paths_decided": sum(r["ok"] for r in results) + sum(len(r["violations"]) for r in results),
        "obligations": sum(r["obligations"] for r in results),
        "functions_analysed": fnset,
        "undecided": und,
        "known_findings": sorted(shown),
    }
    cov.update({k: v for k, v in extra.items() if k != "explanation"})
    if sum(r["ok"] for r in results) + len(shown) + nviol == 0 and not und:
        raise RuntimeError("nothing was analysed")
    ev = {"coverage": cov, "assumptions": assumptions + [
        "Python semantics of the constructs the engine models; library functions (numpy, pyqir, networkx) are uninterpreted pure functions "
        "except where a model is given in engine/natives.py",
        "closed world: the only subclasses are those in the package; objects are built by their constructors and no caller reaches into private fields",
    ], "violations": nviol}
    return (1 if nviol else 0), ev, lines


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN {type(e).__name__}: {e}")
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
