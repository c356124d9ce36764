"""Which mutex guards what, and in which order mutexes are taken."""
from ..core import *
from .bus import *
from .bus2 import bus_functions, lambda_runs, SUB, PUB, AP, AC


class RPol(Policy):
    reads = True


def field_of(e):
    """(owner location, field, declaring class) of an access"""
    root, path = e.loc
    cut = [i for i, s in enumerate(path) if not isinstance(s, str)]
    p = path[:cut[0]] if cut else path
    if not p:
        return None
    return (root, p[:-1]), p[-1], e.cls


def rel(e, owner):
    """the held mutexes, named relative to the object the field belongs to"""
    r = set()
    for m in e.held:
        if m[0] == owner[0]:
            r.add(('own', m[1]))
        elif m[0][0] == 'glob':
            r.add(m)
    return r


def objs(t):
    return {x for x in subterms(t) if x[0] == 'obj'}


class Guards:
    def __init__(self, c):
        self.c = c
        self.acc = {}          # (class, field) -> [(event, locks, fresh)]
        self.nacc = 0

    def add_paths(self, paths, dying=False):
        for x in paths:
            self.esc, self.holds = set(), {}
            self.walk(x.events, dying)

    def escape(self, o):
        if o in self.esc:
            return
        self.esc.add(o)
        for x in self.holds.get(o, ()):
            self.escape(x)

    def walk(self, evs, dying):
        for e in evs:
            if e.k == 'loop':
                for b in e.bodies:
                    self.walk(b['events'], dying)
                continue
            if e.k in ('fcall', 'call'):
                for a in (e.args or ()):
                    if isinstance(a, tuple):
                        for o in objs(a):
                            self.escape(o)
                continue
            if e.k == 'wait':
                for l, cls, at, held in (e.predreads or ()):
                    if not at:
                        self.one(Ev('acc', e.src, held, {'loc': l, 'cls': cls, 'rw': 'r'}), dying)
                continue
            if e.k != 'acc':
                continue
            if e.rw == 'w' and isinstance(e.val, tuple):
                os = objs(e.val) - {e.loc[0]}
                if e.loc[0][0] == 'obj' and e.loc[0] not in self.esc:
                    self.holds.setdefault(e.loc[0], set()).update(os)
                else:
                    for o in os:
                        self.escape(o)
            if e.atomic:
                continue
            self.one(e, dying)

    def one(self, e, dying):
        f = field_of(e)
        if f is None:
            return
        owner, name, cls = f
        if owner[0][0] not in ('this', 'deref', 'obj'):
            return
        if cls is None:
            cls = 'object made in ' + e.src[2]
        fresh = owner[0][0] == 'obj' and owner[0] not in self.esc or dying and owner[0] == THIS
        self.nacc += 1
        self.acc.setdefault((cls, name), []).append((e, rel(e, owner), fresh))


def collect(c):
    m = BusModel(c)
    g = Guards(c)
    pol = RPol()
    done = set()
    for f in bus_functions(c):
        if f.get('acc') != 0 or f.get('isctor'):
            continue
        pre = m.pre_root if f['cls'] == BUS else None
        ps = c.run(f, pol, pre=pre)
        g.add_paths(ps, dying=bool(f.get('dtor')))
        for h, qs in lambda_runs(c, f, ps, done, pol=pol):
            g.add_paths(qs)
    # an element used through a reference belongs to the field that holds its container
    for (cls, name) in list(g.acc):
        if cls.startswith('object made in '):
            own = [k for k in g.acc if k[1] == name and not k[0].startswith('object made in ')]
            if len(own) == 1:
                g.acc[own[0]] += g.acc.pop((cls, name))
    return m, g


OWNER_ONLY = ('std::thread',)


def c04(c):
    m, g = collect(c)
    n = 0
    for (cls, name), xs in sorted(g.acc.items()):
        live = [x for x in xs if not x[2]]
        ws = [x for x in live if x[0].rw == 'w']
        if not ws:
            continue
        if any((x[0].ty or '').startswith(OWNER_ONLY) for x in xs):
            continue
        n += 1
        common = set.intersection(*[x[1] for x in live])
        if common:
            for x in live:
                c.ob(True, 'a field that may change is only used under its mutex', x[0])
            continue
        # the mutex most accesses agree on
        cnt = {}
        for x in live:
            for k in x[1]:
                cnt[k] = cnt.get(k, 0) + (2 if x[0].rw == 'w' else 1)
        best = max(cnt, key=lambda k: cnt[k]) if cnt else None
        for x in live:
            c.ob(best in x[1], 'a field that may change is only used under its mutex', x[0],
                 '%s::%s %s while holding %s; elsewhere it is used under %s' % (cls, name, 'written' if x[0].rw == 'w' else 'read',
                 [show_loc(h) for h in x[0].held], best[1] if best else 'no mutex'))
    c.ob(n > 0, 'guarded fields found', None)


# ------------------------------------------------------------------- C05
class Order:
    """who is locked while what is held"""

    def __init__(self, c):
        self.c = c
        self.edges = {}          # (held name, taken name) -> [(event, direction)]
        self.nlock = 0

    def name(self, m):
        p = [s for s in m[1] if isinstance(s, str)]
        return (self.c.mcls.get(m) or (m[0][1] if m[0][0] == 'glob' else m[0][0]), p[-1] if p else '')

    def direction(self, h, m):
        if h == m:
            return 'same'
        if contains(m[0], lambda t: t == h[0]):
            return 'down'
        return 'up'

    def taken(self, paths):
        """names of all mutexes locked on the paths"""
        return {self.name(e.m): e for x in paths for e in flatten(x.events) if e.k == 'lock'}


def c05(c):
    m = BusModel(c)
    o = Order(c)
    pol = Policy()
    done = set()
    runs = []
    for f in bus_functions(c):
        if f.get('acc') != 0:
            continue
        ps = c.run(f, pol, pre=m.pre_root if f['cls'] == BUS and not f.get('isctor') else None)
        runs.append((f, ps))
        runs += lambda_runs(c, f, ps, done)
    # a child bus publishing into its parent
    for f in c.any(BUS + '::CreateChildBus', 1):
        for x in c.run(f, pre=m.pre_root):
            if x.kind == 'return':
                runs.append((m.publish, c.cont(m.publish, x, this=strip_own(x.val), args=[('p', 'm')])))
    # what may be called from a callback
    usable = [(BUS, 'Publish', 1, ['Message']), (PUB, 'Publish', 1, None), (AP, 'Respond', 2, None), (AC, 'RequestAsync', 2, None)]
    cbl = {}
    for cls, n, k, pt in usable:
        f = c.one(cls + '::' + n, k, pt)
        cbl.update(o.taken([x for g, ps in runs if g is f for x in ps]))
    for f in c.any(BUS + '::CreatePublisher', 1):
        for x in c.run(f, pre=m.pre_root):
            if x.kind == 'return':
                ps = c.cont(c.one(PUB + '::Publish', 1), x, this=strip_own(x.val), args=[('p', 'dg')])
                runs.append((None, ps))
                cbl.update(o.taken(ps))
    # what the worker and the callbacks it runs need
    worker = dict(o.taken([x for g, ps in runs if g is m.run_f for x in ps]))
    worker.update(cbl)
    rec = {}                     # recursive functions -> names they lock

    def need(fid):
        if fid not in rec:
            f = c.prog.funcs.get(fid)
            rec[fid] = {}
            if f is not None:
                rec[fid] = o.taken(c.run(f))
        return rec[fid]

    def visit(evs):
        for e in evs:
            hs = {o.name(h): h for h in e.held}
            if e.k == 'loop':
                for b in e.bodies:
                    visit(b['events'])
            elif e.k == 'lock':
                o.nlock += 1
                c.ob(e.m not in e.held, 'a mutex is not locked again by the thread that holds it', e, show_loc(e.m))
                for n, h in hs.items():
                    o.edges.setdefault((n, o.name(e.m)), []).append((e, o.direction(h, e.m)))
            elif e.k == 'call' and e.rec and e.held:
                same = e.rloc is not None and e.rloc[0] == THIS
                for n in need(e.id):
                    for k, h in hs.items():
                        o.edges.setdefault((k, n), []).append((e, 'down' if not same else 'same'))
            elif e.k == 'fcall' and e.src[2].startswith(PUB + '::'):
                pass             # the function a publisher was made with: analysed as its bus makes it
            elif e.k == 'fcall':
                bad = [n for n in hs if n in cbl]
                c.ob(not bad, 'a callback may publish, respond and request: no mutex it needs is held while it runs', e,
                     'called while holding ' + ', '.join('%s::%s' % n for n in bad))
                for n in cbl:
                    for k in hs:
                        if k != n:
                            o.edges.setdefault((k, n), []).append((e, 'cb'))
            elif e.k == 'join' or e.k == 'call' and e.q and base_name(e.q) == 'join':
                bad = [n for n in hs if n in worker]
                c.ob(not bad, 'no mutex a thread needs is held while waiting for it to end', e, ', '.join('%s::%s' % n for n in bad))
            elif e.k == 'wait':
                c.ob(not [h for h in e.held if h != e.m], 'no other mutex is held during a wait', e)
            elif e.k == 'call' and e.q and base_name(e.q) in ('sleep_for', 'sleep_until', 'sleep', 'usleep'):
                c.ob(not e.held, 'no mutex is held during a sleep', e)
    for f, ps in runs:
        for x in ps:
            visit(x.events)
            c.ob(not x.st.held, 'every mutex is free again when the operation is over', x if not isinstance(x.val, Ev) else x.val, ', '.join(show_loc(h) for h in x.st.held))
    # every order is used in one direction only
    for (a, b), es in sorted(o.edges.items()):
        if a == b:
            ds = {d for _, d in es}
            c.ob('same' not in ds and len(ds) == 1, 'mutexes of one kind are taken in one direction only', es[0][0], '%s::%s %s' % (a[0], a[1], sorted(ds)))
    graph = {}
    for a, b in o.edges:
        if a != b:
            graph.setdefault(a, set()).add(b)
    for (a, b), es in sorted(o.edges.items()):
        if a == b:
            continue
        seen, todo = set(), [b]
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            todo += graph.get(y, ())
        back = a in seen
        c.ob(not back, 'mutexes are taken in one order everywhere', es[0][0], '%s::%s is taken while %s::%s is held, and elsewhere the other way round' % (b + a))
    c.ob(o.nlock > 0, 'locks found', None)
    c.order = o
