"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught_by: the property's own check unless noted)."""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append(f"| {d.name} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = root / "DESIGN.md"
s = p.read_text()
head = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
i = s.index(head) + len(head)
j = i
while s[j:].startswith("|"):
    j = s.index("\n", j) + 1
p.write_text(s[:i] + "\n".join(rows) + "\n" + s[j:])
