#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
by = {}
for d in sorted((root / "seeded").iterdir()):
    m = json.load(open(d / "meta.json"))
    by.setdefault(m["property"], []).append(f"{d.name}: {m['needs']}")
t = "\n".join(f"| {k} | {'; '.join(v)} |" for k, v in sorted(by.items()))
p = root / "DESIGN.md"
s = p.read_text()
if "@SEEDS@" in s:
    s = s.replace("@SEEDS@", t)
else:
    s = re.sub(r"(\| check \| seeds \|\n\|---\|---\|\n)(?:\|.*\n)+", lambda m: m.group(1) + t + "\n", s)
p.write_text(s)
