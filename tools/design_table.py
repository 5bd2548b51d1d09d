#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from the output of tools/recheck.py: tools/design_table.py RECHECK_OUTPUT"""
import sys, re, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for l in open(sys.argv[1]):
    m = re.match(r'(\S+)\s+(C\d\d) (caught|MISSED) (\[.*\])', l)
    if m:
        i, p, st, by = m.groups()
        subs = [re.sub(r'^C\d\d-|\.json$', '', b) for b in eval(by)]
        meta = json.load(open(f'{V}/seeded/{i}/meta.json'))
        rows.append((p, i, meta['needs'].replace('|', '/'), ', '.join(subs) if st == 'caught' else '**missed**'))
rows.sort()
t = '## Planted bugs and the sub-checks that catch them\n\n| property | bug | needs | caught by (quick tier, seed 1) |\n|---|---|---|---|\n'
t += ''.join(f'| {p} | {i} | {n} | {b} |\n' for p, i, n, b in rows)
f = f'{V}/DESIGN.md'
s = open(f).read()
s = re.sub(r'## Planted bugs and the sub-checks.*?(?=\n## |\Z)', '', s, flags=re.S).rstrip('\n') + '\n\n' + t
open(f, 'w').write(s)
print(len(rows), 'rows', sum('missed' in r[3] for r in rows), 'missed')
