"""newseed.py ID PROPERTY FILE  -- reads from stdin: JSON {"subs":[[file,old,new]...],"needs":..,"breaks":..,"demo":C++ text}; validates in /repo and writes seeded/ID"""
import json, os, subprocess, sys, shutil
V = '/verif'; R = '/repo'
DEMO = '''#!/bin/bash
# builds demo.cpp against the library in ./_build and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
Q=/usr/include/x86_64-linux-gnu/qt5
g++ -std=c++11 -w -fPIC -I$R/pillowcore -I$Q -I$Q/QtCore -I$Q/QtNetwork -I$Q/QtScript -I$Q/QtTest "$D/demo.cpp" -o "$T/demo" -L$R/_build/lib -lpillowcore -lQt5Test -lQt5Script -lQt5Network -lQt5Core -lz -lpthread || exit 3
cd "$T" && LD_LIBRARY_PATH=$R/_build/lib timeout 100 ./demo "$T"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]
def restore():
    sh('git -C /repo checkout -- .'); build()
def validate(id, tests=True, check=True):
    d = os.path.join(V, 'seeded', id); meta = json.load(open(d + '/meta.json'))
    if sh('git -C /repo status --porcelain').stdout.strip(): return 'repo dirty'
    res = []
    ok, o = build()
    r = sh('bash %s/demo.sh' % d, cwd=R); res.append('clean demo rc=%d' % r.returncode)
    if r.returncode: print(r.stdout[-800:], r.stderr[-1200:])
    a = sh('git -C /repo apply %s/patch.diff' % d)
    if a.returncode: return 'does not apply: ' + a.stderr
    try:
        ok, o = build(); res.append('build=%s' % ok)
        if not ok: print(o)
        r = sh('bash %s/demo.sh' % d, cwd=R); res.append('bug demo rc=%d' % r.returncode)
        if tests:
            sh('bash /opt/vp/test.sh /tmp/seedres.json'); j = json.load(open('/tmp/seedres.json')); base = json.load(open('/opt/vp/BASELINE.json'))
            b = base.get('passed') or base.get('tests') or base.get('stable') or base
            miss = [t for t in b if t not in j['passed']]; res.append('tests missing=%s' % miss[:5])
        if check:
            r = sh('cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 -m pv.check %s' % meta['property']); res.append('check rc=%d %s' % (r.returncode, [l[:160] for l in r.stdout.splitlines() if 'pillowcore' in l or 'BROKEN' in l][:3]))
    finally: restore()
    return ' | '.join(res)
def create(id, prop, spec):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    for f, old, new in spec['subs']:
        p = os.path.join(R, f); s = open(p).read()
        if s.count(old) < 1: restore(); raise SystemExit('not found in %s: %r' % (f, old))
        open(p, 'w').write(s.replace(old, new, 1))
    diff = sh('git -C /repo diff').stdout; sh('git -C /repo checkout -- .')
    open(d + '/patch.diff', 'w').write(diff); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755); open(d + '/demo.cpp', 'w').write(spec['demo'])
    json.dump({'property': prop, 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
if __name__ == '__main__':
    if sys.argv[1] == 'v':
        for i in sys.argv[2:]: print(i, validate(i))
    elif sys.argv[1] == 'q':
        for i in sys.argv[2:]: print(i, validate(i, tests=False))
