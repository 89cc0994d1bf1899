#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, needs, breaks, edits=[(file, old, new)...], demo (C text).  Writes /verif/seeded/<id>/."""
import sys, os, json, subprocess, shutil
ns = {}; exec(open(sys.argv[1]).read(), ns); d = '/verif/seeded/' + ns['id']; os.makedirs(d, exist_ok=True)
assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0, '/repo dirty'
try:
    for f, a, b in ns['edits']:
        p = '/repo/' + f; s = open(p).read(); assert s.count(a) == 1, (f, s.count(a), a); open(p, 'w').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
finally: subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(d + '/patch.diff', 'w').write(diff); open(d + '/demo.c', 'w').write('#include "kit.h"\n' + ns['demo'].lstrip('\n'))
k = os.path.dirname(os.path.abspath(__file__)) + '/demokit/'; shutil.copy(k + 'kit.h', d); shutil.copy(k + 'demo.sh', d)
json.dump({'property': ns['prop'], 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(d + '/meta.json', 'w'), indent=1)
