#!/usr/bin/env python3
"""Development aid: writes /verif/seeded/<id>/ from the entries of seeds.py and confirms each one
(applies it to /repo, builds, runs the tests and the demo, undoes it).  seed.py [-n] [id...]   -n: only write"""
import json, os, subprocess, sys, textwrap
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from seeds import SEEDS

SH = r'''#!/bin/bash
# run in /repo after the build: 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp"
R=/repo
@PRE@g++ -std=gnu++14 -g -O0 -include fstream --coverage @EXTRA@ -I$R/include -I$R/src -I/usr/include/json-c "$here/demo.cpp" -o "$tmp/demo" \
  $R/_build/lib/libLampPost.a @LIBS@ /usr/lib/x86_64-linux-gnu/libflatbuffers.a /usr/lib/x86_64-linux-gnu/libjson-c.so -ldl -lpthread || exit 3
GCOV_PREFIX="$tmp/gcov" timeout @TMO@ "$tmp/demo" "$tmp"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def write(s):
    d = os.path.join(V, 'seeded', s['id'])
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
    try:
        for f, old, new in s['edits']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    finally:
        sh('git -C /repo checkout -- .')
    open(d + '/demo.cpp', 'w').write(textwrap.dedent(s['demo']).lstrip())
    open(d + '/demo.sh', 'w').write(s.get('sh', SH).replace('@PRE@', s.get('pre', '')).replace('@EXTRA@', s.get('extra', '')).replace('@LIBS@', s.get('libs', '')).replace('@TMO@', str(s.get('timeout', 60))))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    return d


def tests():
    sh('bash /opt/vp/test.sh /tmp/seedout.json')
    o = json.load(open('/tmp/seedout.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    st = base.get('stable') or base.get('passed') or base
    return [t for t in st if t not in o['passed']], len(o['passed'])


def main():
    ids = [a for a in sys.argv[1:] if a[0] != '-']
    for s in SEEDS:
        if ids and s['id'] not in ids:
            continue
        d = write(s)
        if '-n' in sys.argv:
            continue
        r0 = sh('bash /opt/vp/build.sh')
        a = sh('bash %s/demo.sh' % d, cwd='/repo')
        sh('git -C /repo apply %s/patch.diff' % d)
        try:
            failed, n = tests()
            b = sh('bash %s/demo.sh' % d, cwd='/repo')
            r = sh('python3 %s/check.py %s' % (V, s['prop']), cwd=V)
        finally:
            sh('git -C /repo checkout -- .')
        ok = a.returncode == 0 and b.returncode not in (0, 3) and not failed
        print('%-28s %s clean=%d bug=%d testsfailed=%s caught=%s' % (s['id'], 'COUNTS' if ok else 'BAD', a.returncode, b.returncode, failed[:3], r.returncode == 1), flush=True)
        if '-v' in sys.argv or not ok:
            print((a.stdout + a.stderr)[-800:], '\n----\n', (b.stdout + b.stderr)[-500:])
        if '-v' in sys.argv:
            print(r.stdout[-800:])
    sh('bash /opt/vp/build.sh')


main()
