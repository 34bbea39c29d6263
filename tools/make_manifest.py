"""Writes MANIFEST.json: every property with a spec or special checker is claimed, the rest is not applicable."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
NA = {}
exec(open(os.path.join(HERE, "tools", "manifest_notes.py")).read())
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    spec = os.path.exists(os.path.join(HERE, "specs", p + ".py"))
    sp = os.path.exists(os.path.join(HERE, "special", p + ".py"))
    if (spec or sp) and p not in NA:
        tech, note = NOTE.get(p, (None, None))
        checks.append({
            "property": p,
            "quick_cmd": f"python3 checks/check.py {p} --tier quick",
            "thorough_cmd": f"python3 checks/check.py {p} --tier thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": tech or ("path-partitioned abstract interpretation of the source against contracts" if spec else "syntax-tree dataflow analysis"),
            "level": "other",
            "level_note": note or DEFAULT_NOTE,
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "no check yet: the contracts for this property have not been written")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not applicable")
