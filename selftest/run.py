#!/usr/bin/env python3
"""Development aid, not a check: applies each case of cases_*.py to a scratch copy of the
sources, runs every rule on it and compares with what the case expects.
Usage: run.py [-c] [name-substring...]   (-c: also compile the changed files with g++)"""
import threading, queue, glob, importlib.util, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)


SRC = os.environ.get('LPST_REPO', '/repo/')
BASE = os.environ.get('LPST', 'lpst')
LOCK = threading.Lock()
FREE = queue.Queue()
for _i in range(8):
    FREE.put(_i)


def load():
    r = []
    for f in sorted(glob.glob(os.path.join(HERE, 'cases_*.py'))):
        sp = importlib.util.spec_from_file_location('x', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        r += m.CASES
    return r


def compiles(d, files):
    gen = '/tmp/%sgen' % BASE
    with LOCK:
        if not os.path.exists(gen):
            os.makedirs(gen + '/lamppost/schemas')
            subprocess.run(['flatc', '--cpp', '-o', gen + '/lamppost/schemas'] + glob.glob('/repo/schemas/*.fbs'), check=True)
    tus = [f for f in files if f.endswith('.cpp')]
    if any(f.endswith('.h') for f in files):
        tus += ['src/lamppost/LampPost.cpp', 'src/plugins/link/Link.cpp']
    bad = ''
    for f in sorted(set(tus)):
        r = subprocess.run(['g++', '-std=gnu++14', '-fsyntax-only', '-include', 'fstream', '-w', '-DZMQ_BUILD_DRAFT_API', '-I' + gen, '-I' + d + '/include', '-I/usr/include/json-c', d + '/' + f], capture_output=True, text=True)
        if r.returncode:
            bad += ' NOCOMPILE ' + r.stderr.splitlines()[0 if 'error' in r.stderr.splitlines()[0] else 1][:200]
    return bad


def one(case, comp):
    name, expect, edits = case[:3]
    w = FREE.get()
    d = '/tmp/%s%d' % (BASE, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for x in ('src', 'include', 'schemas', '3rdparty', 'config'):
            if os.path.exists(SRC + x):
                shutil.copytree(SRC + x, d + '/' + x)
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, 'EDIT FAILED: %s: %r not found' % (f, old[:60]), ''
            s = s.replace(old, new, 1)
            open(p, 'w').write(s)
        env = dict(os.environ, LPA_REPO=d, LPA_NOCACHE='1', LPA_EVID=d + '/ev', LPA_TUCACHE='/tmp/%scache%d' % (BASE, w))
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), 'ALL'], capture_output=True, text=True, env=env)
        got = sorted(set(re.findall(r'^VIOLATION property=(\S+)', r.stdout, re.M)))
        errs = re.findall(r'^ERROR property=(\S+) (.*)', r.stdout, re.M)
        bad = ''
        if errs:
            bad += ' ERR ' + '; '.join('%s %s' % (a, b[:150]) for a, b in errs[:3])
        if r.returncode not in (0, 1):
            bad += ' CRASH ' + r.stderr[-400:]
        if expect == []:
            if got:
                bad += ' FALSE ALARM ' + ','.join(got)
        else:
            for e in expect:
                if e not in got:
                    bad += ' MISSED ' + e
        if comp:
            bad += compiles(d, {f for f, _, _ in edits})
        return name, bad or 'ok  ' + ','.join(got), r.stdout if bad else ''
    finally:
        shutil.rmtree(d, ignore_errors=True)
        FREE.put(w)


def main():
    args = sys.argv[1:]
    comp = '-c' in args
    verbose = '-v' in args
    if '-t' in args:   # leave one case's tree at /tmp/lpcase
        c = [c for c in load() if c[0] == args[-1]][0]
        shutil.rmtree('/tmp/lpcase', ignore_errors=True)
        for x in ('src', 'include', 'schemas', '3rdparty', 'config'):
            if os.path.exists(SRC + x):
                shutil.copytree(SRC + x, '/tmp/lpcase/' + x)
        for f, old, new in c[2]:
            s = open('/tmp/lpcase/' + f).read()
            open('/tmp/lpcase/' + f, 'w').write(s.replace(old, new, 1))
        return
    args = [a for a in args if not a.startswith('-')]
    cases = [c for c in load() if not args or any(a in c[0] for a in args)]
    n = 0
    with ThreadPoolExecutor(8) as ex:
        for name, res, out in ex.map(lambda c: one(c, comp), cases):
            if not res.startswith('ok') or args or verbose:
                print('%-40s %s' % (name, res), flush=True)
                for l in out.splitlines():
                    if not l.startswith(('OK ', 'VIOLATION')):
                        print('      ' + l[:260])
            if not res.startswith('ok'):
                n += 1
    print('%d cases, %d bad' % (len(cases), n))


main()
