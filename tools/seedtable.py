#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the two markers)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')
rows = ['| Property | Bug | Needs | Breaks |', '|---|---|---|---|']
for i, m in sorted(((i, json.load(open(os.path.join(S, i, 'meta.json')))) for i in os.listdir(S)), key=lambda x: (x[1]['property'], x[0])):
    rows.append('| %s | %s | %s | %s |' % (m['property'], i, m['needs'], m['what_it_breaks']))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
