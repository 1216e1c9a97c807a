#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from tools/seeds/*.py."""
import glob, os, re, runpy
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = ['| id | caught by | what is broken | note |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    for d in runpy.run_path(f)['SEEDS']:
        rows.append('| %s | %s | %s | %s |' % (d['id'], d['property'], d['breaks'].replace('|', '\\|'), d.get('note', '')))
p = V + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'<!-- table -->.*?<!-- /table -->', lambda m: '<!-- table -->\n' + '\n'.join(rows) + '\n<!-- /table -->', t, flags=re.S)
open(p, 'w').write(t)
