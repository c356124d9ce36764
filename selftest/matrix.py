#!/usr/bin/env python3
"""Development aid: runs every check on every seeded change (in scratch copies) and writes selftest/matrix.json"""
import glob, json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('LPST_REPO', '/repo/')


def one(d):
    i = os.path.basename(d)
    t = '/tmp/lpmx-' + i
    shutil.rmtree(t, ignore_errors=True)
    os.makedirs(t)
    try:
        for x in ('src', 'include', 'schemas', '3rdparty', 'config'):
            if os.path.exists(SRC + x):
                shutil.copytree(SRC + x, t + '/' + x)
        r = subprocess.run(['patch', '-p1', '-s', '-i', d + '/patch.diff'], cwd=t, capture_output=True, text=True)
        assert r.returncode == 0, (i, r.stdout)
        r = subprocess.run([sys.executable, V + '/check.py', 'ALL'], capture_output=True, text=True, env=dict(os.environ, LPA_REPO=t, LPA_NOCACHE='1', LPA_EVID=t + '/ev'))
        return i, sorted(set(re.findall(r'^VIOLATION property=(\S+)', r.stdout, re.M))), sorted(set(re.findall(r'^ERROR property=(\S+)', r.stdout, re.M)))
    finally:
        shutil.rmtree(t, ignore_errors=True)


with ThreadPoolExecutor(6) as ex:
    res = list(ex.map(one, sorted(glob.glob(V + '/seeded/*'))))
m = {}
for i, v, e in res:
    p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    m[i] = v
    print('%-28s %s %s%s' % (i, p, ','.join(v), ' ERRORS ' + ','.join(e) if e else '') + ('' if p in v else '   NOT CAUGHT BY ITS OWN'))
json.dump(m, open(V + '/selftest/matrix.json', 'w'), indent=1, sort_keys=True)
