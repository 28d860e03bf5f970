#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json.
caught.json (id -> what caught it) is written by hand from detection runs."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(HERE, 'DESIGN.md')).read().split('<!--CATCH-->')[0]
rows = ['| bug | needs | breaks | caught by |', '|---|---|---|---|']
caught = {}
p = os.path.join(HERE, 'seeded', 'caught.json')
if os.path.exists(p):
    caught = json.load(open(p))
for i in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = os.path.join(HERE, 'seeded', i, 'meta.json')
    if os.path.exists(m):
        d = json.load(open(m))
        rows.append('| %s | %s | %s | %s |' % (i, d['needs'].replace('|', '\\|'), d['what_it_breaks'].replace('|', '\\|'),
                                              caught.get(i, d['property'] + ' quick')))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s + '<!--CATCH-->\n\n' + '\n'.join(rows) + '\n')
print(len(rows) - 2, 'bugs')
