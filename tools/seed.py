#!/usr/bin/env python3
"""Development helper: seed.py ID PROPERTY FILE 'old' 'new' NEEDS BREAKS < demo.cpp : writes seeded/ID and checks that it counts.
   seed.py --run ID... : applies each planted change to /repo, runs the checks named (or all), prints what they say, undoes it."""
import sys, os, subprocess, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d)
g++ -std=c++17 -O0 -I include -I /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" || { rm -rf "$T"; exit 2; }
"$T/demo"; R=$?
rm -rf "$T"
exit $R
'''


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def tests(d):
    """build and run the unit tests of a copy"""
    r = sh('cd %s && cmake --build _build_seed -j8 2>&1 | tail -3' % d)
    return r


def plant(a, demo):
    id_, prop, f, needs, breaks, edits = a
    d = os.path.join(SD, id_)
    os.makedirs(d, exist_ok=True)
    p = '/repo/' + f
    s = open(p, newline='').read()
    for o, n in edits:
        assert s.count(o) == 1, (id_, s.count(o), o)
        s = s.replace(o, n)
    try:
        open(p, 'w', newline='').write(s)
        open(d + '/patch.diff', 'wb').write(subprocess.run('git -C /repo diff', shell=True, capture_output=True).stdout)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.cpp', 'w').write(demo)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        bad = sh('bash %s/demo.sh' % d, cwd='/repo')
        t = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
        out = json.load(open('/tmp/seed_out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('stable') or base.get('passed') or base
        miss = [x for x in stable if x not in out['passed']] if isinstance(stable, list) else '?'
    finally:
        sh('git -C /repo checkout -- .')
    good = sh('bash %s/demo.sh' % d, cwd='/repo')
    ok = bad.returncode != 0 and good.returncode == 0 and not miss
    print(id_, 'OK' if ok else 'NOT OK', 'patched demo', bad.returncode, 'clean demo', good.returncode, 'tests lost', len(miss), miss[:3], (bad.stdout + good.stdout + good.stderr)[-300:] if not ok else '')


def run(id_, props=None):
    d = os.path.join(SD, id_)
    meta = json.load(open(d + '/meta.json'))
    r = sh('git -C /repo apply %s/patch.diff' % d)
    assert r.returncode == 0, r.stderr
    try:
        for p in props or [meta['property']]:
            c = sh('VERIF_SEED=1 python3-vt check.py %s --tier quick' % p, cwd=V)
            v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
            print(id_, p, 'exit', c.returncode, len(v), 'violations', v[:1], c.stdout.split('\n')[-2:][:1] if c.returncode == 0 else '')
    finally:
        sh('git -C /repo checkout -- .')


if __name__ == '__main__':
    if sys.argv[1] == '--run':
        ids = [x for x in sys.argv[2:] if not x.startswith('P')]
        ps = [x for x in sys.argv[2:] if x.startswith('P')]
        for i in ids or sorted(os.listdir(SD)): run(i, ps)
    else:
        for path in sys.argv[1:]:
            g = {}
            exec(open(path).read(), g)
            for a, demo in g['BUGS']: plant(a, demo)
