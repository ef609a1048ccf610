#!/usr/bin/env python3
"""Development tool: make, confirm and store planted bugs described in tools/seedspecs.py.
usage: mkseed.py ID... | all      (runs against /repo's working tree and restores it)"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seedspecs import SEEDS
BASE = '711c0b7'
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def restore():
    sh('git -C /repo checkout -- .')

def tests():
    sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    d = json.load(open('/tmp/seed_out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    return d, base

def passed(d):
    for k in ('stable', 'passed', 'pass'):
        if k in d:
            return set(d[k])
    raise SystemExit('unknown result format %s' % list(d))

def make(s):
    sid = s['id']
    out = os.path.join(V, 'seeded', sid)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    for path, old, new in s['edits']:
        f = '/repo/src/pynlo/' + path
        t = open(f, newline='').read()
        crlf = '\r\n' in t
        o, n = (old.replace('\n', '\r\n'), new.replace('\n', '\r\n')) if crlf else (old, new)
        if t.count(o) != 1:
            restore()
            return '%s: %d matches in %s' % (sid, t.count(o), path)
        open(f, 'w', newline='').write(t.replace(o, n))
    diff = sh('git -C /repo diff').stdout
    for path, old, new in s['edits']:
        base = sh('git -C /repo show %s:src/pynlo/%s' % (BASE, path)).stdout.replace('\r', '').split('\n')
        rem = [l for l in sh('git -C /repo diff -U0 -- src/pynlo/%s' % path).stdout.replace('\r', '').split('\n') if l.startswith('-') and not l.startswith('---')]
        bad = [l for l in rem if l[1:] not in base and l[1:].strip()]
        if bad or not rem:
            restore()
            return '%s: removed lines not original: %r' % (sid, bad)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, 'patch.diff'), 'w').write(diff)
    open(os.path.join(out, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
    open(os.path.join(out, 'demo.sh'), 'w').write('#!/bin/bash\n# run with cwd /repo; exit 0 when the property holds\n'
        'export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" OMP_NUM_THREADS=1\n'
        'exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(out, 'demo.sh'), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(out, 'meta.json'), 'w'), indent=1)
    b = sh('bash /opt/vp/build.sh')
    sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    d = json.load(open('/tmp/seed_out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    lost = sorted(passed(base) - passed(d))
    dp = sh('timeout 280 bash %s/demo.sh' % out, cwd='/repo', env=ENV)
    ck = sh('/usr/local/bin/python3 -B run.py ' + s['property'], cwd=V)
    restore()
    dc = sh('timeout 280 bash %s/demo.sh' % out, cwd='/repo', env=ENV)
    ok = b.returncode == 0 and not lost and dp.returncode != 0 and dc.returncode == 0
    msg = '%s [%s] build %d lost %s demo clean %d patched %d check %d -> %s%s' % (
        sid, s['property'], b.returncode, lost, dc.returncode, dp.returncode, ck.returncode,
        'VALID' if ok else 'INVALID', ' CAUGHT' if ck.returncode == 1 else ' MISSED')
    if dc.returncode:
        msg += '\n   clean demo: ' + (dc.stderr or dc.stdout)[-400:]
    if dp.returncode == 0 :
        msg += '\n   patched demo passes'
    else:
        msg += '\n   patched: ' + (dp.stderr or dp.stdout).strip().split('\n')[-1][:200]
    if not ok:
        shutil.rmtree(out)
    return msg

for s in SEEDS:
    if sys.argv[1:] == ['all'] or s['id'] in sys.argv[1:] or (sys.argv[1:] == ['new'] and not os.path.exists(os.path.join(V, 'seeded', s['id']))):
        print(make(s), flush=True)
