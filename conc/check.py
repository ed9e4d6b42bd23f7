#!/usr/bin/env python3
"""check.py quick|thorough: C25 on the current /repo. check.py --replay FILE: one schedule again."""
import glob, json, os, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BIN = HERE + '/target/%s/x86_64-unknown-linux-gnu/release/conc'
T0 = time.time()

def build():
    r = subprocess.run(['bash', HERE + '/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print('\n'.join(r.stdout.splitlines()[-40:])); print('BUILD-ERROR'); sys.exit(2)

if sys.argv[1] == '--replay':
    build()
    v = json.load(open(sys.argv[2]))
    with tempfile.NamedTemporaryFile('w', suffix='.txt') as f:
        f.write(v['scenario'] + '\t' + json.dumps(v['decisions'])); f.flush()
        r = subprocess.run([BIN % ('race' if v['race'] else 'sched'), 'quick', 'race' if v['race'] else 'sched', '/tmp'], env=dict(os.environ, CONC_REPLAY=f.name))
    sys.exit(r.returncode)

tier = 'thorough' if sys.argv[1] == 'thorough' else 'quick'
build()
stats = {'sched': [], 'race': []}
found, late, errors = [], [], []
for mode in ('sched', 'race'):
    with tempfile.TemporaryDirectory() as d:
        r = subprocess.run([BIN % mode, tier, mode, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: errors.append('%s explorer exit %d: %s' % (mode, r.returncode, r.stdout[-300:]))
        for p in sorted(glob.glob(d + '/conc.*')):
            for l in open(p, encoding='utf-8', errors='replace'):
                f = l.rstrip('\n').split('\t')
                if f[0] == 'S': stats[mode].append(dict(zip(('schedules', 'states', 'transitions', 'equivalent', 'diverged', 'capped', 'longest', 'bound'), map(int, f[1:9])), seconds=float(f[9]), scenario=json.loads('"%s"' % f[10])))
                elif f[0] == 'V': found.append({'property': 'C25', 'race': f[1] == '1', 'scenario': json.loads('"%s"' % f[2]), 'decisions': json.loads('[%s]' % f[3]), 'what': json.loads('"%s"' % f[4])})
                elif f[0] == 'L': late.append(f[1])
                elif f[0] == 'E': errors.append(l.strip())
    if found: break

known = json.load(open(ROOT + '/known_findings.json'))
listed = {(k.get('scenario'), k.get('what')) for k in known.get('findings', []) if k.get('property') == 'C25'}
os.makedirs(ROOT + '/work/replay', exist_ok=True)
bad = 0
seen = set()
for v in found:
    if (v['scenario'], v['what']) in listed:
        print('KNOWN-FINDING: property=C25 %s: %s' % (v['scenario'], v['what'])); continue
    if bad >= 5: continue
    p = '%s/work/replay/C25-%d.json' % (ROOT, bad)
    json.dump(v, open(p, 'w'), indent=1)
    print('VIOLATION property=C25 replay=%s' % p)
    print('  %s\n  schedule %s\n  %s' % (v['scenario'], v['decisions'], v['what'][:600]))
    bad += 1
allst = stats['sched'] + stats['race']
tot = lambda k, m=None: sum(s[k] for s in (stats[m] if m else allst))
cov = {
    'states': tot('states'), 'transitions': tot('transitions'), 'traces_validated_against_impl': tot('schedules'),
    'schedules': tot('schedules', 'sched'), 'schedules_with_race_detection': tot('schedules', 'race'),
    'distinct_up_to_independence': tot('schedules') - tot('equivalent'),
    'scenarios': len(stats['sched']), 'scenarios_with_race_detection': len(stats['race']),
    'scenarios_by_preemption_bound': {str(b): sum(1 for s in stats['sched'] if s['bound'] == b) for b in sorted({s['bound'] for s in stats['sched']})},
    'longest_execution': max([s['longest'] for s in allst] or [0]), 'diverged': tot('diverged'),
    'stopped_at_a_limit': tot('capped') + len(late), 'exhaustive': not found and tot('capped') + len(late) + tot('diverged') == 0,
    'samples': [{k: s[k] for k in ('scenario', 'schedules', 'states', 'bound', 'longest')} for s in (stats['sched'][::max(1, len(stats['sched']) // 6)])[:8]],
}
json.dump({'property': 'C25', 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov, 'violations': bad, 'wall_s': round(time.time() - T0, 2),
    'assumptions': ['sequentially consistent interleavings of atomic operations and futex calls, up to the preemption bound; orders allowed only by weaker memory models are not executed (unordered plain accesses are reported by the vector clocks instead)',
                    'one fixed seed of the hash maps', 'the library starts no thread of its own']},
    open(ROOT + '/evidence/C25.json', 'w'))
print('C25 %s: %d scenarios, %d schedules (%d with race detection), %d states, %d transitions, %d violations, %.1f s' % (tier, len(stats['sched']), tot('schedules'), tot('schedules', 'race'), tot('states'), tot('transitions'), bad, time.time() - T0))
if bad: sys.exit(1)
if errors or not allst:
    print('\n'.join(errors[:5])); print('EXPLORER-ERROR'); sys.exit(2)
