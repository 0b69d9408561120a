#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md (section 4) from seeded/*/meta.json"""
import glob
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
d = open(H + '/DESIGN.md').read()
a, b = '<!-- planted -->\n', '<!-- /planted -->'
i, j = d.index(a) + len(a), d.index(b)
open(H + '/DESIGN.md', 'w').write(d[:i] + '| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n' + d[j:])
