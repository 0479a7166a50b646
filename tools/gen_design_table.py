#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md (between the markers)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['<!-- seeded -->', '', '| planted bug | what it needs | caught by |', '|---|---|---|']
miss = set()
try: miss = {l.split()[0] for l in open(V + '/tools/missed.txt') if l.strip() and l[0] != '#'}
except OSError: pass
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['needs'].replace('|', '/')} | {'— (missed)' if d in miss else m['property']} |")
rows.append('<!-- /seeded -->')
p = V + '/DESIGN.md'
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('SEEDED_TABLE', t) if 'SEEDED_TABLE' in s else re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
