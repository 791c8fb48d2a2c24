#!/usr/bin/env python3
"""mkseed.py SPEC.py [--force] -- makes /verif/seeded/<id>/ from a spec (dict ID, PROP, EDITS, NEEDS, BREAKS, DEMO) and
confirms it: patch applies, builds, the stable tests pass, the demo is 0 without and nonzero with it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = {'sim': ['build.py', 'shim.c', 'setids.c', 'config_values.txt'], 'lib': ['sim.py', 'broker.py', 'procs.py', 'demolib.py']}
SH = r'''#!/bin/sh
# run with cwd /repo: exit 0 if the behaviour is right, 1 if it is broken, 2 if the demonstration could not run
D=$(cd "$(dirname "$0")" && pwd) || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
chmod 755 "$T"; mkdir "$T/sim" "$T/lib"
cp "$D/build.py" "$D/shim.c" "$D/setids.c" "$D/config_values.txt" "$T/sim/"
cp "$D/sim.py" "$D/broker.py" "$D/procs.py" "$D/demolib.py" "$D/demo.py" "$T/lib/"
FCV_REPO=$(pwd) FCV_TMP=$T timeout 280 python3 "$T/lib/demo.py"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests(w):
    # build.sh and test.sh on the scratch copy instead of /repo
    for n in ('build', 'test'):
        open('%s/vp-%s.sh' % (w, n), 'w').write(open('/opt/vp/%s.sh' % n).read().replace('/opt/vp/build.sh', w + '/vp-build.sh').replace('/repo', w))
    r = sh('bash %s/vp-build.sh' % w)
    if r.returncode: return 'build failed\n' + r.stdout[-800:]
    sh('bash %s/vp-test.sh %s/seed-out.json' % (w, w))
    want = json.load(open('/opt/vp/BASELINE.json'))['stable']; got = json.load(open(w + '/seed-out.json'))['passed']
    miss = [t for t in want if t not in got]
    return 'tests fail: %s' % miss if miss else None
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    d = os.path.join(V, 'seeded', g['ID'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        ok = one(g, d, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    if not ok: shutil.rmtree(d)
    print(g['ID'], 'KEPT' if ok else 'DROPPED')
def one(g, d, w):
    shutil.rmtree(w); sh('cp -a /repo %s' % w)
    if sh('git -C %s status --porcelain -uno' % w).stdout.strip():
        sys.exit('repo not clean')
    for sub, fs in KIT.items():
        for f in fs: shutil.copy(os.path.join(V, sub, f), d)
    open(d + '/demo.py', 'w').write('from demolib import *\n' + g['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    r = sh('%s/demo.sh' % d, cwd=w); ok = r.returncode == 0
    print('clean demo', r.returncode, '' if ok else r.stdout[-1500:])
    for f, o, n in g['EDITS']:
        p = os.path.join(w, f); t = open(p).read()
        if t.count(o) != 1:
            print('edit matches %d times: %r' % (t.count(o), o[:60])); return False
        open(p, 'w').write(t.replace(o, n))
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % w).stdout)
    t = tests(w); print('patched tests', t or 'pass'); ok &= not t
    r = sh('%s/demo.sh' % d, cwd=w); print('patched demo', r.returncode, r.stdout[-300:]); ok &= r.returncode == 1
    if '--check' in sys.argv:
        for p in [g['PROP']] + g.get('ALSO', []):
            r = sh('%s/check %s quick' % (V, p), env=dict(os.environ, FCV_REPO=w)); print('check', p, r.returncode, r.stdout[-500:])
    return ok
main()
