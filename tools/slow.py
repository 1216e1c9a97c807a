#!/usr/bin/env python3
"""slowest families of the last run: slow.py [-n N] Cnn..."""
import json, sys, glob
n = 6
a = sys.argv[1:]
if a[:1] == ['-n']:
    n = int(a[1]); a = a[2:]
for c in a or sorted(f[-8:-5] for f in glob.glob('/verif/evidence/C*.json')):
    d = json.load(open('/verif/evidence/%s.json' % c))
    fs = d['coverage']['families']
    print(c, d['tier'], 'wall', d['wall_s'])
    for f in sorted(fs, key=lambda f: -f['seconds'])[:n]:
        print('   %8.2f s %9d  %s' % (f['seconds'], f['executed'], f['family'][:110]))
