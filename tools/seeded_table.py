#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = set(open(os.path.join(ROOT, 'tools/missed.txt')).read().split())
rows = ['| bug | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    name = f.split('/')[-2]
    rows.append('| %s | %s | %s | %s | %s |' % (name, m['property'], m['what_it_breaks'], m['needs'],
                                              '**missed**' if name in MISSED else m['property']))
p = ROOT + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
