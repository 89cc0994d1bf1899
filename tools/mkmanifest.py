#!/usr/bin/env python3
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); C = json.load(open(H + '/checks.json'))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]; checks = []; na = []
for p in props:
    c = C.get(p['id'])
    if not c: na.append({'property': p['id'], 'reason': 'the simulation for this property is not built yet'}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
      'technique': 'deterministic simulation with fault injection: ' + c['technique'], 'level': c['level'], 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': 'bash sim/build.sh build', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: the library is compiled from the working tree and its system calls, allocator, clock, mutexes and threads are redirected at link time (ld --wrap), preemption points come from compiler coverage callbacks.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
