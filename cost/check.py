#!/usr/bin/env python3
"""check.py quick|thorough: C33 on the current /repo. check.py --replay FILE: one case again."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BIN = HERE + '/target/x86_64-unknown-linux-gnu/release/cost'
T0 = time.time()
WORKERS = 8

r = subprocess.run(['bash', HERE + '/build.sh'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    print('\n'.join(r.stdout.splitlines()[-40:])); print('BUILD-ERROR'); sys.exit(2)
if sys.argv[1] == '--replay':
    r = subprocess.run([BIN, '--replay'] + json.load(open(sys.argv[2]))['case'])
    sys.exit(1 if r.returncode == 77 else r.returncode)
tier = 'thorough' if sys.argv[1] == 'thorough' else 'quick'
procs = [subprocess.Popen([BIN, tier, str(i), str(WORKERS)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for i in range(WORKERS)]
found, parts, errors = [], [], []
for i, p in enumerate(procs):
    out = p.communicate()[0]
    ended = False
    for l in out.splitlines():
        f = l.split('\t')
        if f[0] == 'V': found.append((f[1:-1], f[-1]))
        elif f[0] == 'S': parts.append(f[1:])
        if f[0] in ('S', 'STOP'): ended = True
    if p.returncode == 77: ended = True
    if not ended: errors.append('worker %d ended with %d' % (i, p.returncode))
known = json.load(open(ROOT + '/known_findings.json'))
listed = [k.get('case') for k in known.get('findings', []) if k.get('property') == 'C33']
os.makedirs(ROOT + '/work/replay', exist_ok=True)
os.makedirs(ROOT + '/evidence', exist_ok=True)
bad = 0
for case, what in sorted(found, key=lambda x: sum(map(len, x[0]))):
    if case in listed:
        print('KNOWN-FINDING: property=C33 %s: %s' % (case, what)); continue
    if bad < 5:
        path = '%s/work/replay/C33-%d.json' % (ROOT, bad)
        json.dump({'property': 'C33', 'case': case, 'what': what}, open(path, 'w'))
        print('  %s: %s' % (' | '.join(case), what))
        print('VIOLATION property=C33 replay=%s' % path)
    bad += 1
tot = lambda k: sum(int(p[k]) for p in parts)
worst = max(parts, key=lambda p: float(p[3]), default=None)
json.dump({'property': 'C33', 'tier': tier, 'level': 'model_checking', 'seed': int(os.environ.get('VERIF_SEED', '1')), 'violations': bad, 'wall_s': round(time.time() - T0, 2),
    'coverage': {'exhaustive': not bad and not errors, 'states': tot(0), 'transitions': tot(2), 'traces_validated_against_impl': tot(1), 'cases': tot(0), 'implementation_calls': tot(1), 'steps_counted': tot(2),
                 'outcomes': {'in proportion': tot(0) - tot(4), 'hardly depends on the text': tot(4)}, 'greatest_growth_over_four_times_the_length': float(worst[3]) if worst else None, 'samples': [p[5] for p in parts][:8]},
    'assumptions': ['steps are edges of the control flow of the library, its dependencies and std, and bytes moved (16 to a step)',
                    'texts are one word repeated between two others; lengths are compared at a factor of four, from 1000 characters on']},
    open(ROOT + '/evidence/C33.json', 'w'))
print('C33 %s: %d cases, %d calls, %d steps, greatest growth %s, %d violations, %.1f s' % (tier, tot(0), tot(1), tot(2), worst[3] if worst else '-', bad, time.time() - T0))
if bad: sys.exit(1)
if errors or not parts: print('\n'.join(errors)); print('EXPLORER-ERROR'); sys.exit(2)
