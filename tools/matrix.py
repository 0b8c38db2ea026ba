#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md from the output of plant.py --caught (stdin)."""
import json
import re
import sys

V = '/verif'
rows = {}
for line in sys.stdin:
    m = re.match(r'(\S+) (C\d\d) (CAUGHT|missed) (.*)', line)
    if m:
        rows[m[1]] = (m[2], 'caught by ' + m[2] if m[3] == 'CAUGHT' else 'missed')
out = ['| bug | property | needs | verdict |', '|---|---|---|---|']
for k in sorted(rows, key=lambda k: (rows[k][0], k)):
    d = json.load(open(f'{V}/seeded/{k}/meta.json'))
    out.append(f'| {k} | {rows[k][0]} | {d["needs"]} | {rows[k][1]} |')
p = f'{V}/DESIGN.md'
s = open(p).read()
a, b = s.index('<!-- matrix -->'), s.index('<!-- /matrix -->')
open(p, 'w').write(s[:a] + '<!-- matrix -->\n' + '\n'.join(out) + '\n' + s[b:])
