#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: rebuild the simulator from /repo's working tree, run the
seeded search for one property, minimise and re-run what it finds, write the evidence file."""
import sys, os, subprocess, time, json, fcntl, re, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('FSIM_REPO', '/repo')
BUILD = os.environ.get('FSIM_BUILD', os.path.join(HERE, 'build')); WORKERS = int(os.environ.get('FSIM_WORKERS', '8'))
prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
if tier not in ('quick', 'thorough'): tier = 'quick'
try: seed = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: seed = 1
CFG = json.load(open(os.path.join(HERE, 'checks.json'))); C = CFG[prop]
def die(code, msg):
    print(msg, flush=True); sys.exit(code)
os.makedirs(BUILD, exist_ok=True)
t_start = time.time()
with open(os.path.join(BUILD, '.lock'), 'w') as lk:
    fcntl.flock(lk, fcntl.LOCK_EX)
    r = subprocess.run(['bash', os.path.join(HERE, 'sim/build.sh'), BUILD, REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: die(3, 'ERROR: build failed\n' + r.stdout[-3000:])
FSIM = os.path.join(BUILD, 'fsim')
tmp = tempfile.mkdtemp(prefix='fsim.', dir=BUILD)
count = int(C['quick_runs'] if tier == 'quick' else C['thorough_runs']); budget = float(C.get('quick_s', 75) if tier == 'quick' else C.get('thorough_s', 1500))
if os.environ.get('FSIM_BUDGET'): budget = float(os.environ['FSIM_BUDGET'])
known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json')))['findings'] if k['property'] == prop]
def parse_viol(f):
    out = []; cur = None
    if not os.path.exists(f): return out
    for line in open(f, errors='replace'):
        line = line.rstrip('\n')
        if line == 'fsim-replay 1': cur = {'lines': [line]}; out.append(cur)
        elif cur is not None:
            cur['lines'].append(line); k, _, v = line.partition(' ')
            if k in ('class', 'message', 'seed', 'trace') and k not in cur: cur[k] = v
    return [c for c in out if 'class' in c and 'seed' in c]
def is_known(v):
    for k in known:
        if k['class'] == v.get('class') and re.search(k['match'], v.get('message', '')): return k
    return None
procs = []; viols = []; known_seen = {}; errors = []
def launch(w, first):
    sf = os.path.join(tmp, 'w%d.%d' % (w, first)); args = [FSIM, 'search', prop, '--seed=%d' % seed, '--first=%d' % first, '--count=%d' % count, '--step=%d' % WORKERS, '--budget=%g' % max(1, t_end - time.time()), '--stats=' + sf, '--tmp=' + tmp, '--twice=%d' % (2 if tier == 'quick' else 20)]
    ef = open(sf + '.err', 'w'); p = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=ef, start_new_session=True); procs.append([p, w, sf, first])
t_end = time.time() + budget
for w in range(WORKERS): launch(w, w)
stats_files = []
while procs and not viols:
    time.sleep(0.05)
    for e in list(procs):
        p, w, sf, first = e; rc = p.poll()
        if rc is None:
            if time.time() > t_end + 120: p.kill(); errors.append('worker %d does not end' % w); procs.remove(e)
            continue
        procs.remove(e); stats_files.append(sf)
        if rc == 0: continue
        vs = parse_viol(sf + '.viol')
        if not vs: errors.append('worker %d ended with %d: %s' % (w, rc, open(sf + '.err').read()[-1500:])); continue
        v = vs[-1]; k = is_known(v)
        if k:
            known_seen.setdefault(k['id'], 0); known_seen[k['id']] += 1
            m = re.search(r'^index (\d+)', '\n'.join(v['lines']), re.M)
            nxt = int(m.group(1)) + WORKERS if m else None
            if nxt is not None and nxt < count and time.time() < t_end: launch(w, nxt)
        else: viols.append(v)
for e in procs:
    try: e[0].kill()
    except OSError: pass
for e in procs: e[0].wait(); stats_files.append(e[2])
for k in known: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
replay_path = None; verdict = 0; vmsg = ''
if viols:
    v = viols[0]; os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    raw = os.path.join(tmp, 'raw.replay'); open(raw, 'w').write('\n'.join(v['lines']) + '\n')
    mini = os.path.join(tmp, 'min.replay'); shutil.copy(raw, mini)
    subprocess.run([FSIM, 'minimise', raw, mini, '--budget=%g' % (40 if tier == 'quick' else 120), '--tmp=' + tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    good = None
    for cand in (mini, raw):
        rcs = [subprocess.run([FSIM, 'replay', cand, '--tmp=' + tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode for _ in range(2)]
        if rcs == [1, 1]: good = cand; break
    if not good: errors.append('violation does not replay: class=%s %s' % (v['class'], v.get('message', '')[:600]))
    else:
        replay_path = os.path.join(HERE, 'replays', '%s-%s.replay' % (prop, v['seed'])); shutil.copy(good, replay_path)
        m = parse_viol(replay_path)[-1]; vmsg = '%s: %s' % (m['class'], m['message']); verdict = 1
# ---- evidence
agg = {}; F = {}; S = {}; O = {}; R = {}; tr = set(); sc = set(); fst = set()
for sf in stats_files:
    if not os.path.exists(sf): continue
    for line in open(sf):
        a = line.split()
        if len(a) == 2 and a[0] in 'tcd': {'t': tr, 'c': sc, 'd': fst}[a[0]].add(a[1])
        elif len(a) == 3 and a[0] in 'FSOR': d = {'F': F, 'S': S, 'O': O, 'R': R}[a[0]]; d[a[1]] = d.get(a[1], 0) + int(a[2])
        elif len(a) == 2: agg[a[0]] = agg.get(a[0], 0) + float(a[1])
wall = time.time() - t_start; runs = int(agg.get('runs', 0)); cpu = agg.get('secs', 0) or 1e-9
samples = []
r = subprocess.run([FSIM, 'describe', prop, '--seed=%d' % seed, '--index=0', '--tmp=' + tmp], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
if r.returncode == 0: samples.append(r.stdout[:6000])
ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': C['level'], 'wall_s': round(wall, 2), 'violations': 1 if verdict else 0,
  'assumptions': CFG['_assumptions'] + C.get('assumptions', []),
  'coverage': {'evaluations': runs, 'distinct_nontrivial': len(tr),
    'rule': 'one evaluation = one simulated run of a generated plan; non-trivial = at least one injected fault, crash probe or context switch happened in it; distinct = different trace hash (all system calls, results, observations, faults and switches in order)',
    'samples': samples, 'runs_per_hour': int(runs / cpu * 3600 * WORKERS), 'seeds_per_hour': int(runs / cpu * 3600 * WORKERS), 'simulated_seconds': round(agg.get('simus', 0) / 1e6, 3),
    'operations': int(agg.get('ops', 0)), 'system_calls': int(agg.get('nsys', 0)), 'context_switches': int(agg.get('nswitch', 0)), 'crash_points_examined': int(agg.get('probes', 0)), 'recoveries_examined': int(agg.get('recoveries', 0)),
    'faults_injected': F, 'system_calls_by_kind': S, 'operations_by_kind': O, 'reach_probes': R, 'distinct_interleavings': len(sc), 'distinct_interleavings_measure': 'hash of the sequence of (actor, operation, position in operation) at every context switch',
    'distinct_disk_states': len(fst), 'distinct_disk_states_measure': 'hash of all file names and contents at examined crash points',
    'real_code': CFG['_real'], 'stubs': CFG['_stubs'], 'known_findings_hit': known_seen, 'oracle': C.get('oracle', '')}}
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
shutil.rmtree(tmp, ignore_errors=True)
if verdict:
    print(vmsg); print('VIOLATION property=%s replay=%s' % (prop, replay_path)); sys.exit(1)
if errors: die(3, 'ERROR: ' + ' | '.join(errors))
if runs == 0: die(3, 'ERROR: nothing was run')
print('OK property=%s runs=%d distinct=%d wall=%.1fs' % (prop, runs, len(tr), wall)); sys.exit(0)
