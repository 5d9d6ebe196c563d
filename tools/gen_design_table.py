#!/usr/bin/env python3
"""Rewrites the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{i}/meta.json'))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} |".replace('\n', ' '))
p = root + '/DESIGN.md'
s = open(p).read()
head = '| bug | caught by | what it breaks |\n|---|---|---|\n'
a = s.index(head) + len(head)
b = s.index('\n\n', a)
s = s[:a] + '\n'.join(rows) + s[b:]
open(p, 'w').write(s)
