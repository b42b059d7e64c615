#!/usr/bin/env python3
"""Make and try planted bugs (development tool; no check uses it).

  seedtool.py make SPEC.py [ID...]   write /verif/seeded/<id>/ from the specs
  seedtool.py run ID [PROP...]       apply, build, test, demo, check, undo
"""
import json, os, subprocess, sys, tempfile, runpy
REPO, SEEDED = os.environ.get('SEED_REPO', '/repo'), '/verif/seeded'
BASE = json.load(open('/opt/vp/BASELINE.json'))

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def stable():
    b = BASE
    for k in ('stable', 'passing', 'passed', 'tests'):
        if isinstance(b, dict) and k in b:
            b = b[k]
    return set(b)

def undo():
    sh('git -C %s checkout -- .' % REPO)

def make(spec, ids):
    for s in runpy.run_path(spec)['SPECS']:
        if ids and s['id'] not in ids:
            continue
        undo()
        for f, old, new in s['edits']:
            p = os.path.join(REPO, f)
            t = open(p, encoding='utf8').read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w', encoding='utf8').write(t.replace(old, new))
        d = os.path.join(SEEDED, s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % REPO).stdout)
        undo()
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(PRE + s['demo'].lstrip('\n'))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)

PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
from mathutils import Vector
from bpypolyskel import bpypolyskel as B
from bpypolyskel import bpyeuclid as G
from bpypolyskel.poly2FacesGraph import poly2FacesGraph

def V(pts, z=0.0):
    return [Vector((float(x), float(y), z)) for x, y in pts]

def check(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)

'''

def run(i, props, tests=True):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(d + '/meta.json'))
    props = props or [meta['property']]
    out = {'id': i}
    undo()
    r = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
    out['demo_clean'] = r.returncode
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode:
        print(i, 'DOES NOT APPLY', a.stderr); return
    try:
        r = sh('bash %s/demo.sh' % d, cwd=REPO, timeout=300)
        out['demo_bug'] = r.returncode
        out['demo_out'] = (r.stdout + r.stderr)[-200:]
        if tests:
            sh('bash /opt/vp/test.sh /tmp/seed_t.json')
            res = json.load(open('/tmp/seed_t.json'))
            ok = set(res['passed']) if 'passed' in res else {k for k, v in res.items() if v == 'passed'}
            out['broken_tests'] = sorted(stable() - ok)[:5], len(stable() - ok)
        for p in props:
            r = sh('python3-vt check.py %s' % p, cwd='/verif', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            out[p] = r.returncode, [l[:160] for l in r.stdout.splitlines() if 'VIOL' in l][:2] or r.stdout[-300:]
    finally:
        undo()
    print(json.dumps(out, indent=1), flush=True)

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2], sys.argv[3:])
    else:
        ids = sys.argv[2].split(',')
        for i in ids:
            run(i, sys.argv[3:])
