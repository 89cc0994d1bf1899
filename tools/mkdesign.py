#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught: noted by hand in tools/caught.json)."""
import json, glob, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try: caught = json.load(open(H + '/tools/caught.json'))
except Exception: caught = {}
rows = ['<!--seeds-->', '| planted bug | needs | caught by |', '|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f)); m = json.load(open(f)); rows.append('| %s | %s | %s |' % (i, m['needs'], caught.get(i, m['property'] + ' quick')))
rows.append('<!--/seeds-->')
s = open(H + '/DESIGN.md').read(); t = '\n'.join(rows)
s = s.replace('@SEEDS@', t) if '@SEEDS@' in s else re.sub(r'<!--seeds-->.*<!--/seeds-->', lambda m: t, s, flags=re.S)
open(H + '/DESIGN.md', 'w').write(s)
