"""What the rules share: running the interpreter with statistics, obligations,
violations, the evidence file and the verdict."""
import json
import os
import sys
import time
from .prog import Prog, AnalysisError, HERE, REPO, base_name
from .engine import Interp, Policy, Path, flatten, Ev, L, St
from .terms import *

THIS = ('this',)
PTHIS = ('addr', (THIS, ()))


class Check:
    def __init__(self, pid, title, rule):
        self.pid, self.title, self.rule = pid, title, rule
        self.prog = None
        self.funcs = set()
        self.npaths = self.ncalls = self.nloops = self.nevents = 0
        self.entries = []
        self.obl = 0
        self.failed = []         # (what, src, detail, key)
        self.samples = []
        self.kinds = {}
        self.cache = {}
        self.mcls = {}

    # ------------------------------------------------------------ running code
    def run(self, f, pol=None, **kw):
        it = Interp(self.prog, pol or Policy())
        t0 = time.time()
        paths = it.run(f, **kw)
        self.funcs |= it.covered
        self.mcls.update(it.mcls)
        self.npaths += len(paths)
        self.ncalls += it.ncalls
        self.nloops += it.nloops
        self.nevents += sum(1 for p in paths for _ in p.events)
        self.entries.append((f['q'], len(paths)))
        return paths

    def take(self, o):
        """counts what another check ran as ours"""
        self.funcs |= o.funcs
        self.mcls.update(o.mcls)
        self.npaths += o.npaths
        self.ncalls += o.ncalls
        self.nloops += o.nloops
        self.nevents += o.nevents
        self.entries += o.entries

    def cont(self, f, path, this=None, args=None, pol=None, **kw):
        """run f starting from the state path ended in"""
        old = kw.pop('pre', None)

        def pre(st, fr):
            mine = dict(st.store)
            st.store.clear()
            st.store.update({k: v for k, v in path.store.items()})
            st.store.update({k: v for k, v in mine.items() if k != THIS})
            st.facts = dict(path.facts)
            st.n = path.st.n + 1000
            st.env.update({k: v for k, v in path.st.env.items() if k not in st.env})
            if old:
                old(st, fr)
        kw2 = dict(kw)
        if this is not None:
            kw2['this'] = this
        return self.run(f, pol, args=args, pre=pre, **kw2)

    def anytime(self, f, path, this=None, args=None, pol=None, **kw):
        """like cont, but after any number of runs of f: what f itself changes in the objects there are may be anything"""
        old = kw.pop('pre', None)
        wild = set()
        for _ in range(4):
            def pre(st, fr):
                if old:
                    old(st, fr)
                for loc in sorted(wild, key=str):
                    st.store[loc[0]] = path_set(st.store.get(loc[0], ('init', loc[0])), loc[1], ('open', loc))
            ps = self.cont(f, path, this, args, pol, pre=pre, **dict(kw))
            new = set()
            for y in ps:
                for e in writes(list(flatten(y.events))):
                    if e.loc[0] in path.store or e.loc[0] == THIS:
                        cut = [i for i, s in enumerate(e.loc[1]) if not isinstance(s, str)]
                        new.add((e.loc[0], e.loc[1][:cut[0]] if cut else e.loc[1]))
            new = {l for l in new if not any(l[0] == w[0] and l[1][:len(w[1])] == w[1] for w in wild)}
            if not new:
                return ps
            wild |= new
        return ps

    def one(self, q, npar=None, pt=None):
        c = self.prog.fn(q, npar, pt)
        if len(c) != 1:
            raise AnalysisError('%d definitions of %s' % (len(c), q))
        return c[0]

    def any(self, q, npar=None, pt=None):
        c = self.prog.fn(q, npar, pt)
        if not c:
            raise AnalysisError('no definition of %s' % q)
        return c

    # ------------------------------------------------------------- obligations
    def ob(self, ok, what, src=None, detail='', kind=None):
        """one obligation; src = event, function record or (file, line, function)"""
        self.obl += 1
        k = kind or what
        c = self.kinds.setdefault(k, [0, 0])
        c[0] += 1
        s = self.src(src)
        if ok:
            c[1] += 1
            if len(self.samples) < 12 and c[0] == 1:
                self.samples.append('%s at %s:%s (%s): holds' % (what, s[0], s[1], s[2]))
        else:
            self.failed.append((what, s, detail))
        return ok

    def src(self, x):
        if isinstance(x, Ev):
            x = x.src
        elif isinstance(x, dict):
            x = (x['file'], x['l'], x['q'])
        elif isinstance(x, Path):
            es = [e for e in x.events if e.src]
            x = es[-1].src if es else None
        if x is None:
            return ('?', 0, '?')
        f = x[0] or '?'
        return (os.path.relpath(f, REPO) if f.startswith('/') else f, x[1], x[2])


def load_findings(pid):
    """known findings of property pid: the violation keys that are listed (never those marked fixed)"""
    r = []
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as f:
            for x in json.load(f):
                if x.get('property') == pid and x.get('status') == 'known':
                    r.append(x)
    except FileNotFoundError:
        pass
    return r


def main(argv):
    from .rules import REGISTRY
    sys.setrecursionlimit(20000)
    if argv[1] == 'ALL':
        prog = Prog()
        return max([decide(p, argv, prog) for p in sorted(REGISTRY)])
    return decide(argv[1], argv, None)


def decide(pid, argv, prog):
    from .rules import REGISTRY
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    title, rule, fn = REGISTRY[pid]
    t0 = time.time()
    c = Check(pid, title, rule)
    c.tier = tier
    err = None
    try:
        c.prog = prog or Prog()
        fn(c)
        if c.obl == 0:
            err = 'no instance of the rule was found'
    except AnalysisError as e:
        err = str(e)
    except Exception as e:  # a shape of code the rule does not understand
        import traceback
        err = 'internal: %s: %s (%s)' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3].strip())
    known = load_findings(pid)
    seen_known, viol, dup = [], [], set()
    for what, s, detail in c.failed:
        k = [x for x in known if x['what'] == what and x['function'] == s[2] and x['file'] == s[0]]
        if k:
            if k[0] not in seen_known:
                seen_known.append(k[0])
            continue
        if (what, s) in dup:
            continue
        dup.add((what, s))
        viol.append((what, s, detail))
    ev = os.environ.get('LPA_EVID') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    files = sorted({os.path.relpath(c.prog.funcs[f]['file'], REPO) for f in c.funcs}) if c.prog else []
    cov = {
        'explanation': rule,
        'obligations': c.obl,
        'discharged': c.obl - len(c.failed),
        'functions_interpreted': len(c.funcs),
        'abstract_paths': c.npaths,
        'call_sites_resolved': c.ncalls,
        'loops_summarised': c.nloops,
        'translation_units': len(c.prog.tus) if c.prog else 0,
        'entries': ['%s: %d paths' % e for e in c.entries[:60]],
        'files': files,
        'rules': {k: '%d of %d' % (v[1], v[0]) for k, v in sorted(c.kinds.items())},
        'samples': c.samples,
    }
    if err:
        cov['error'] = err
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
           'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)
    for k in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    if viol:
        rp = os.path.join(ev, 'replay')
        os.makedirs(rp, exist_ok=True)
        rf = os.path.join(rp, pid + '.txt')
        with open(rf, 'w') as f:
            for what, s, detail in viol:
                f.write('%s:%s: in %s: %s\n' % (s[0], s[1], s[2], what))
                if detail:
                    f.write('    %s\n' % detail)
        for what, s, detail in viol[:20]:
            print('%s:%s: in %s: %s%s' % (s[0], s[1], s[2], what, ' [' + detail[:300] + ']' if detail else ''))
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(rf, HERE)))
        return 1
    if err:
        print('ERROR property=%s %s' % (pid, err))
        return 2
    print('OK property=%s obligations=%d functions=%d paths=%d' % (pid, c.obl, len(c.funcs), c.npaths))
    return 0


ASSUMPTIONS = [
    'clang 18 resolves names, overloads and templates of the Linux build as the build\'s compiler does; platform code of other systems is not analysed',
    'standard library, zmq, json-c, flatbuffers runtime and libc functions behave as documented (their models are in lpa/engine.py)',
    'memory allocation does not fail; no undefined behaviour elsewhere corrupts the objects considered',
    'an abstract path may be infeasible; the rules only ever require more on it, they never accept because of it',
]


# ---------------------------------------------------------------- path helpers
def straight(evs):
    """events of one path outside loops"""
    return [e for e in evs if e.k != 'loop']


def loops(evs):
    return [e for e in evs if e.k == 'loop']


def writes(evs, loc=None):
    return [e for e in evs if e.k == 'acc' and e.rw == 'w' and (loc is None or e.loc[0] == loc[0] and e.loc[1][:len(loc[1])] == loc[1])]


def switches_off(e, to=FALSE):
    v = e.val
    return v == to or isinstance(v, tuple) and v[0] == 'rmw' and v[1] == 'exchange' and v[2] == to


def switches_on(e):
    return switches_off(e, TRUE)


def unmoved(t):
    while isinstance(t, tuple) and t and t[0] == 'movedfrom':
        t = t[1]
    return t


def strip_own(t):
    while isinstance(t, tuple) and t and t[0] == 'own':
        t = t[1]
    return t
