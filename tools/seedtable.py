#!/usr/bin/env python3
"""Fills the table of planted changes of DESIGN.md (between the markers)."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = R + '/DESIGN.md'; s = open(p).read()
notes = json.load(open(R + '/tools/seednotes.json'))
rows = ['<!--seeds-->', '', '| change | needs | quick check |', '|---|---|---|']
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows.append('| %s | %s | %s |' % (d, m['needs'], notes.get(d, 'caught')))
rows += ['', '<!--/seeds-->']
t = '\n'.join(rows)
s = s.replace('@SEEDS@', t) if '@SEEDS@' in s else re.sub(r'<!--seeds-->.*<!--/seeds-->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
