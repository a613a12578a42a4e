#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
p = V / "DESIGN.md"
lines = p.read_text().splitlines()
a = lines.index("| id | property | needs |")
b = a
while b < len(lines) and lines[b].startswith("|"):
    b += 1
rows = []
for m in sorted(V.glob("seeded/*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['needs']} |")
p.write_text("\n".join(lines[:a] + ["| id | property | needs |", "|---|---|---|"] + rows + lines[b:]) + "\n")
print(len(rows))
