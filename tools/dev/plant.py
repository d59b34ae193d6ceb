#!/usr/bin/env python3
"""Confirm planted bugs: in a scratch copy of /repo, each patch must build, keep the stable tests
passing and make its demo fail; the demo must pass without it.  Development tool, not a check.
  plant.py ID...      (default: all of seeded/ without a 'confirmed' mark in /tmp/confirmed)"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = '/tmp/pw/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prep():
    if not os.path.isdir(W):
        os.makedirs('/tmp/pw', exist_ok=True)
        sh('cp -a /repo /tmp/pw/')
        for n in ('build.sh', 'test.sh'):
            s = open('/opt/vp/' + n).read().replace('/repo', W)
            open('/tmp/pw/' + n, 'w').write(s)
    sh(f'cd {W} && git checkout -q -- . && git clean -fdq src && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
base = json.load(open('/opt/vp/BASELINE.json'))
def stable():
    b = base
    for k in ('stable', 'passed', 'tests', 'stable_pass'):
        if isinstance(b, dict) and k in b: return set(b[k])
    raise SystemExit(list(b)[:10])
def demo(d):
    s = open(f'{d}/demo.sh').read()
    shutil.rmtree('/tmp/pw/demo', ignore_errors=True); shutil.copytree(d, '/tmp/pw/demo')
    for r, _, fs in os.walk('/tmp/pw/demo'):
        for f in fs:
            p = os.path.join(r, f); t = open(p).read()
            if '/repo' in t: open(p, 'w').write(t.replace('/repo', W))
    try: return sh('bash /tmp/pw/demo/demo.sh', cwd=W, timeout=300)
    except subprocess.TimeoutExpired: 
        class R: returncode = 124; stdout = 'timeout'
        return R
def passed(p):
    j = json.load(open(p))
    for k in ('passed', 'pass'):
        if k in j: return set(j[k])
    return {k for k, v in j.get('tests', j).items() if v in ('passed', 'pass', 'ok', True)}
ids = sys.argv[1:] or sorted(i for i in os.listdir(V + '/seeded') if not os.path.exists('/tmp/confirmed/' + i))
os.makedirs('/tmp/confirmed', exist_ok=True)
for i in ids:
    d = f'{V}/seeded/{i}'
    prep()
    r0 = demo(d)
    if r0.returncode != 0: print(i, 'BAD: demo fails on clean tree\n', r0.stdout[-1500:]); continue
    r = sh(f'cd {W} && git apply {d}/patch.diff')
    if r.returncode: print(i, 'BAD: patch', r.stdout); continue
    r = sh('bash /tmp/pw/build.sh')
    if r.returncode: print(i, 'BAD: build\n', r.stdout[-1500:]); continue
    r = sh('bash /tmp/pw/test.sh /tmp/pw/out.json')
    miss = {x for x in stable()} - {x.replace(W, '/repo') for x in passed('/tmp/pw/out.json')}
    if miss: print(i, 'BAD: tests', len(miss), sorted(miss)[:4]); continue
    r1 = demo(d)
    if r1.returncode == 0: print(i, 'BAD: demo passes with patch'); continue
    print(i, 'OK', r1.stdout.strip()[-160:].replace('\n', ' | '))
    open('/tmp/confirmed/' + i, 'w').write('ok')
prep()
