#!/usr/bin/env python3
"""Run checks against planted bugs: catch.py [-a] ID...   (-a: every claimed property's check; default: the bug's own)."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
args = sys.argv[1:]
al = '-a' in args
ids = [a for a in args if a != '-a'] or sorted(os.listdir(V + '/seeded'))
claimed = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
for i in ids:
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    assert sh('git -C /repo status --porcelain').stdout == ''
    assert sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff').returncode == 0
    try:
        for p in (claimed if al else [m['property']]):
            t = time.time(); r = sh(f'VERIF_TIER=quick VERIF_SEED=1 python3 tools/check.py {p}')
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            c = [l for l in r.stdout.split('\n') if l.startswith('counterexample')]
            if al and r.returncode == 0: continue
            print(i, p, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), c[0][:220] if c else r.stdout[-300:], flush=True)
    finally:
        sh('git -C /repo checkout -- .')
