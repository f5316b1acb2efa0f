#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + '/DESIGN.md'
text = open(p).read()
mark = '## Table of planted bugs\n'
head = text.split(mark)[0].rstrip('\n') + '\n\n'
rows = ['| bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    c = lambda s: s.replace('|', '/').replace('\n', ' ')
    rows.append(f"| {d} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
open(p, 'w').write(head + mark + '\n' + '\n'.join(rows) + '\n')
