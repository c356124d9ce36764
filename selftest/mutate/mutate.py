#!/usr/bin/env python3
"""Development aid, not a check: mechanical edits of /repo's sources (mut.cpp makes them), applied in
scratch copies, with all checks run on each.  usage: mutate.py same|bug OUT.jsonl [op-or-function-substring]
same: every edit must leave the checks quiet (batches of edits of different functions, split on an alarm)
bug:  prints the edits that compile and that no check reports, to be looked at by hand"""
import json, os, queue, re, random, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, VERIF)
SRC = os.environ.get('LPST_REPO', '/repo/')
BASE = os.environ.get('LPST', 'lpmu')
NW = int(os.environ.get('LPST_N', '8'))
os.environ['LPA_REPO'] = SRC.rstrip('/')
from lpa import prog
GEN = '/tmp/%sgen' % BASE
if not os.path.exists(GEN):
    os.makedirs(GEN + '/lamppost/schemas')
    subprocess.run(['flatc', '--cpp', '-o', GEN + '/lamppost/schemas'] + [SRC + 'schemas/' + f for f in os.listdir(SRC + 'schemas') if f.endswith('.fbs')], check=True)


def collect():
    units = prog.units()
    fl = prog.flags(GEN)
    seen, r = set(), []

    def one(u):
        return subprocess.run(['/tmp/mut', SRC, u, '--'] + fl, capture_output=True, text=True).stdout
    with ThreadPoolExecutor(8) as ex:
        for o in ex.map(one, units):
            for l in o.splitlines():
                m = json.loads(l)
                for e in m['edits']:
                    e[0] = os.path.relpath(os.path.normpath(e[0]), SRC)
                k = json.dumps([m['kind'], m['edits']])
                if k in seen or any(e[0].startswith('..') for e in m['edits']):
                    continue
                seen.add(k)
                m['file'] = os.path.relpath(os.path.normpath(m['file']), SRC)
                r.append(m)
    return r


FREE = queue.Queue()
for _i in range(NW):
    FREE.put(_i)


def apply(d, muts):
    es = {}
    n = 0
    for m in muts:
        for f, o, l, t in m['edits']:
            n += 1
            es.setdefault(f, []).append((o, n, l, t))
    for f, x in es.items():
        s = open(SRC + f, 'rb').read()
        # later offsets first; at the same offset insertions keep their order
        for o, n, l, t in sorted(x, key=lambda e: (-e[0], -e[2] if False else 0, -e[1])):
            s = s[:o] + t.encode() + s[o + l:]
        open(os.path.join(d, f), 'wb').write(s)
    return set(es)


def run(muts):
    w = FREE.get()
    d = '/tmp/%s%d' % (BASE, w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        for x in ('src', 'include', 'schemas', '3rdparty', 'config'):
            if os.path.exists(SRC + x):
                shutil.copytree(SRC + x, d + '/' + x)
        fs = apply(d, muts)
        if any('std::for_each' in e[3] for m in muts for e in m['edits']):
            for f in fs:
                p = os.path.join(d, f)
                s = open(p).read()
                open(p, 'w').write(s.replace('#include', '#include <algorithm>\n#include', 1))
        env = dict(os.environ, LPA_REPO=d, LPA_NOCACHE='1', LPA_EVID=d + '/ev', LPA_TUCACHE='/tmp/%scache%d' % (BASE, w))
        cmd = [os.path.join(VERIF, 'check.py'), 'ALL']
        if muts[0]['kind'] == 'bug' and os.path.exists('/tmp/mufuncs.json'):
            cmd = [os.path.join(HERE, 'first.py'), '/tmp/mufuncs.json'] + [re.sub('<.*?>', '', m['fn']) for m in muts]
        try:
            r = subprocess.run([sys.executable] + cmd, capture_output=True, text=True, env=env, timeout=600)
        except subprocess.TimeoutExpired:
            return 'TIMEOUT', [], ''
        k = (r.stdout + r.stderr).find('cannot parse')
        if k >= 0:
            return 'NOCOMPILE ' + (r.stdout + r.stderr)[k:k + 300], [], ''
        got = sorted(set(re.findall(r'^VIOLATION property=(\S+)', r.stdout, re.M)))
        errs = sorted(set(re.findall(r'^ERROR property=(\S+)', r.stdout, re.M)))
        out = '\n'.join(l for l in r.stdout.splitlines() if not l.startswith(('OK ', 'VIOLATION')))
        if r.returncode not in (0, 1, 2):
            out += r.stderr[-500:]
        return ('alarm' if got or errs else 'quiet'), got + ['E' + e for e in errs], out[:3000]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        FREE.put(w)


def main():
    kind, outf = sys.argv[1:3]
    sub = sys.argv[3] if len(sys.argv) > 3 else ''
    ms = [m for m in collect() if m['kind'] == kind and (not sub or sub in m['op'] or sub in m['fn'] or sub in m['file'])]
    done = set()
    if os.path.exists(outf):
        for l in open(outf):
            done.add(json.loads(l)['key'])
    for m in ms:
        m['key'] = json.dumps(m['edits'])
    ms = [m for m in ms if m['key'] not in done]
    random.Random(7).shuffle(ms)
    # what changes no header first: fewer units to read again
    ms.sort(key=lambda m: (m['op'] == 'twice', any(e[0].endswith('.h') for e in m['edits'])))
    if os.environ.get('LPST_OPS'):
        ms = [m for m in ms if m['op'] not in os.environ['LPST_OPS'].split(',')]
    print(len(ms), 'edits', flush=True)
    lock = threading.Lock()
    of = open(outf, 'a')

    def rec(m, res, got, out):
        with lock:
            of.write(json.dumps(dict(m, res=res, got=got, out=out)) + '\n')
            of.flush()
            if (kind == 'same' and res not in ('quiet',) and not res.startswith('NOCOMPILE')) or (kind == 'bug' and res == 'quiet') or res == 'TIMEOUT':
                print('%-14s %s:%d %s  %s %s' % (m['op'], m['file'], m['line'], m['fn'].replace('lp::', ''), res, ','.join(got)), flush=True)

    if kind == 'bug':
        with ThreadPoolExecutor(NW) as ex:
            list(ex.map(lambda m: rec(m, *run([m])), ms))
    else:
        size = int(os.environ.get('LPST_B', '10'))
        batches = []
        for m in ms:
            for b in batches:
                if len(b) < size and all(x['fn'] != m['fn'] for x in b):
                    b.append(m)
                    break
            else:
                batches.append([m])

        def go(b):
            res, got, out = run(b)
            if res == 'quiet' or len(b) == 1:
                for m in b:
                    rec(m, res, got, out)
                return
            h = len(b) // 2
            go(b[:h])
            go(b[h:])
        with ThreadPoolExecutor(NW) as ex:
            list(ex.map(go, batches))
    print('done')


if __name__ == '__main__':
    main()
