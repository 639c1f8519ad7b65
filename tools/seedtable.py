#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and the results of mkseed.py -c (stdin, optional)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['what_it_breaks'].replace('|', '/')))
rows.sort()
t = '| caught by | planted bug | what it breaks |\n|---|---|---|\n' + ''.join(f'| {p} | {i} | {w} |\n' for p, i, w in rows)
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: f'<!-- seeds -->\n{t}<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
print(len(rows))
