#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md (between the SEEDED marks)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
p = root / 'DESIGN.md'
s = p.read_text()
rows = sorted((json.load(open(d / 'meta.json'))['property'], d.name, json.load(open(d / 'meta.json'))['needs'])
              for d in (root / 'seeded').iterdir() if d.is_dir())
t = '| check | planted bug | what it needs to manifest |\n|---|---|---|\n' + ''.join(f'| {a} | {b} | {c} |\n' for a, b, c in rows)
a, b = '<!-- SEEDED -->\n', '<!-- /SEEDED -->\n'
i, j = s.index(a) + len(a), s.index(b)
p.write_text(s[:i] + t + s[j:])
