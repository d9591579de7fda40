#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, 'DESIGN.md')
text = open(path).read()
head = text.split('<!-- planted -->')[0]
rows = []
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'],
                                      d['needs'].replace('|', '\\|').replace('\n', ' ')))
open(path, 'w').write(head + '<!-- planted -->\n| bug | caught by | what it needs |\n|---|---|---|\n'
                      + '\n'.join(rows) + '\n')
print(len(rows), 'planted bugs')
