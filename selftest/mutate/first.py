#!/usr/bin/env python3
"""Development aid: runs the rules that look at the given functions, the cheap ones first, until one reports something.
first.py MAP.json FUNCTION...   (without functions: writes MAP.json from the unchanged tree)"""
import json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
sys.setrecursionlimit(20000)
from lpa.core import Check
from lpa.prog import Prog, AnalysisError
from lpa.rules import REGISTRY


def norm(q):
    q = re.sub(r'<.*?>', '', q)
    q = re.sub(r'<.*?>', '', q)
    return q.replace('>', '')


p = Prog()
m = sys.argv[1]
fs = set(sys.argv[2:])
if not fs:
    r = {}
    for k, (t, ru, fn) in sorted(REGISTRY.items()):
        c = Check(k, t, ru); c.tier = 'quick'; c.prog = p
        t0 = time.time()
        fn(c)
        qs = set()
        for i in c.funcs:
            q = norm(p.funcs[i]['q'])
            qs.add(q)
        r[k] = [time.time() - t0, sorted(qs)]
    json.dump(r, open(m, 'w'))
    sys.exit()
r = json.load(open(m))
todo = [k for k, v in sorted(r.items(), key=lambda x: x[1][0]) if '' in fs or any(q == f or q.startswith(f + '(') or q.startswith(f + '::') for q in v[1] for f in fs)]
print('rules', len(todo))
err = []
for k in todo:
    t, ru, fn = REGISTRY[k]
    c = Check(k, t, ru); c.tier = 'quick'; c.prog = p
    try:
        fn(c)
        if c.obl == 0:
            err.append(k)
    except Exception as e:
        err.append(k + ':' + repr(e)[:100])
    if c.failed:
        print('VIOLATION property=' + k)
        for x in c.failed[:3]:
            print(x)
        sys.exit(1)
for e in err:
    print('ERROR property=' + e)
