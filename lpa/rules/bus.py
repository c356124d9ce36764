"""Rules about the message bus."""
from ..core import *

BUS = 'lp::bus::Bus'


class BusModel:
    """Where the bus keeps what, found from what its public operations do."""

    def __init__(self, c):
        self.c = c
        self.p = c.prog
        self.ctor_root = c.one(BUS + '::Bus', 1, ['basic_string'])
        self.ctor_child = c.one(BUS + '::Bus', 2, ['basic_string', 'function'])
        self.publish = c.one(BUS + '::Publish', 1, ['Message'])
        self.run_f = c.one(BUS + '::Run', 0)
        self.roots = [x for x in c.run(self.ctor_root) if x.kind == 'return']
        if not self.roots:
            raise AnalysisError('the root bus constructor never returns')
        self.overlay = self.lambdas(self.roots[0].get((THIS, ())))
        self.stop_writes = [e for x in c.run(c.one(BUS + '::Stop', 0)) for e in writes(x.events)]
        self.flags = {e.loc for e in self.stop_writes if e.atomic or e.val in (FALSE, TRUE)}
        # the queue: what publishing appends to
        self.pub_paths = c.run(self.publish, pre=self.pre_root)
        self.queue = None
        for x in self.pub_paths:
            for e in writes(list(flatten(x.events))):
                if self.root_of(e.loc) and e.val[0] in ('app', 'pre', 'appall') and ('p', 0) in subterms(e.val):
                    self.queue = e.loc
        self._chan = {}

    @staticmethod
    def root_of(loc):
        return loc[0] == THIS

    def lambdas(self, rec, path=()):
        """[(path, value)] of callables the constructor stored"""
        r = []
        if rec[0] == 'rec':
            for n, v in rec[2]:
                r += self.lambdas(v, path + (n,))
        elif rec[0] in ('lambda', 'bind', 'func'):
            r.append((path, rec))
        return r

    def overlaid(self, root):
        t = ('init', root)
        for path, v in self.overlay:
            t = path_set(t, path, replace(v, PTHIS, ('addr', (root, ()))))
        return t

    def pre_root(self, st, fr):
        """this is a root bus that has not been detached"""
        st.store[THIS] = self.overlaid(THIS)

    def is_flag_false(self, facts):
        for a, v in facts:
            if a[0] == 'b' and a[1][0] == 'ard' and a[1][2] in self.flags and v is False:
                return True
        return False

    def is_flag(self, a):
        return a[0] == 'b' and a[1][0] == 'ard' and a[1][2] in self.flags

    def channel(self, what):
        """location of the list a Create operation registers its product in"""
        if what in self._chan:
            return self._chan[what]
        f = {'subscriber': lambda: self.c.any(BUS + '::CreateSubscriber', 1, ['basic_string']),
             'publisher': lambda: self.c.any(BUS + '::CreatePublisher', 1),
             'child': lambda: self.c.any(BUS + '::CreateChildBus', 1)}[what]()[0]
        r = set()
        for x in self.c.run(f, pre=self.pre_root):
            if x.kind != 'return':
                continue
            v = strip_own(x.val)
            for e in writes(list(flatten(x.events))):
                if e.loc[0] == THIS and e.val is not None and v is not None and v in subterms(e.val):
                    loc = e.loc
                    cut = [i for i, s in enumerate(loc[1]) if not isinstance(s, str)]
                    r.add((loc[0], loc[1][:cut[0]] if cut else loc[1]))
        self._chan[what] = r
        return r

    def getter(self, name, term, cls='lp::messages::Message'):
        f = self.c.one(cls + '::' + name, 0)
        root = ('g', name)

        def pre(st, fr):
            st.store[root] = term
        vs = {x.val for x in self.c.run(f, this=('addr', (root, ())), pre=pre) if x.kind == 'return'}
        return vs.pop() if len(vs) == 1 else ('many', name)


def appended(c, model, path, qloc, what, msg=None):
    """obligation: the path appends exactly one message to the queue at qloc; returns the message"""
    evs = path.events
    flat = list(flatten(evs))
    src = path
    ws = [e for e in writes(flat) if e.loc[0] == qloc[0] and e.loc[1][:len(qloc[1])] == qloc[1]]
    st = [e for e in writes(straight(evs)) if e in ws]
    if not c.ob(path.kind == 'return', what + ': publishing does not fail', path.val.src if path.kind == 'throw' else src):
        return None
    if not c.ob(len(ws) == 1 and len(st) == 1, what + ': the message is put into the queue exactly once', ws[-1] if ws else src,
                '%d queue writes on the path with %s' % (len(ws), facts_text(path.facts))):
        return None
    e = ws[0]
    ok = e.loc == qloc and e.val[0] == 'app' and e.val[1] == e.old
    if not c.ob(ok, what + ': the message is added behind the messages already queued', e, show(e.val)):
        return None
    m = e.val[2]
    if msg is not None:
        c.ob(m == msg, what + ': what is queued is the published message, unchanged', e, show(m))
    return m


def facts_text(facts):
    return ', '.join('%s%s' % ('' if v else 'not ', show(a)[:100]) for a, v in (facts.items() if isinstance(facts, dict) else facts))


# ------------------------------------------------------------- delivery
def match_atoms(facts, topic_terms, pattern_terms):
    """(equal decided?, wildcard decided?) from path facts: values True/False/None"""
    eq = wild = None
    for a, v in facts:
        if a[0] == 'eq':
            x, y = a[1], a[2]
            if (x in topic_terms and y in pattern_terms) or (y in topic_terms and x in pattern_terms):
                eq = v
            if C('/**/*') in (x, y) and (x in pattern_terms or y in pattern_terms):
                wild = v
    return eq, wild


class Delivery:
    """Analysis of one message's way from the queue to subscribers and child buses."""

    def __init__(self, c, m):
        self.c, self.m = c, m
        self.subs = m.channel('subscriber')
        self.kids = m.channel('child')

    def in_chan(self, cont, chan):
        """cont is the value of one of the channel lists of this bus"""
        for loc in chan:
            if cont == path_get(('init', loc[0]), loc[1]):
                return True
            if cont[0] == 'sh' and cont[2] == loc:
                return True
        return False

    def elem(self, lp):
        """the element term of a foreach loop (value of the element; for a map the mapped value)"""
        ind = ('ind', lp.id)
        return {sel_at(lp.cont, ind), sel_at(lp.cont, ('key', lp.cont, ind))}

    def dispatch(self, evs, facts, M, recfn, exempt):
        """obligations on one execution that handles message term M; evs: its events"""
        c = self.c
        # the only loops over the lists
        top = [e for e in evs if e.k == 'loop']
        subl = [e for e in top if e.cont is not None and self.in_chan(e.cont, self.subs)]
        kidl = [e for e in top if e.cont is not None and self.in_chan(e.cont, self.kids)]
        if exempt:
            # stopped: may be dropped, but a message must never be handed out twice
            c.ob(len(subl) <= 1 and len(kidl) <= 1, 'a message is handed out at most once', (subl + kidl + [None])[0])
            return subl, kidl
        where = (evs[-1] if evs else None)
        c.ob(len(subl) == 1, 'every message reaches the subscribers of the bus exactly once', subl[-1] if subl else where,
             '%d passes over the subscribers when %s' % (len(subl), facts_text(facts)))
        c.ob(len(kidl) == 1, 'every message reaches the child buses exactly once', kidl[-1] if kidl else where,
             '%d passes over the child buses when %s' % (len(kidl), facts_text(facts)))
        return subl, kidl

    def subscriber_loop(self, lp, M, want):
        """every element is visited and receives M once if it matches"""
        c, m = self.c, self.m
        c.ob(lp.full, 'the pass over the subscribers visits every subscriber', lp)
        el = self.elem(lp)
        topics = {m.getter('GetTopic', M)}
        for b in lp.bodies:
            evs = b['events']
            f = list(b['facts'])
            if b['kind'] == 'break' and m.is_flag_false(f):
                continue
            if want == 'delivery':
                c.ob(b['kind'] == 'next', 'one subscriber does not end the pass over the subscribers', evs[-1] if evs else lp,
                     '%s when %s' % (b['kind'], facts_text(f)))
            pats = set()
            for e in evs:
                if e.k == 'leave' and e.q.endswith('::GetTopic') and isinstance(e.val, tuple):
                    pats.add(e.val)
            # the subscriber's own topic (pattern): read off the element
            obj = [('deref', x) for x in el]
            pats = {x for x in pats if any(contains(x, lambda t: t == o) for o in obj)} | {self.topic_of(o) for o in obj}
            calls = [e for e in flatten(evs) if e.k == 'fcall' and any(contains(e.fv, lambda t, o=o: t == o) for o in obj)]
            inl = [e for e in straight(evs) if e in calls]
            recv = [e for e in flatten(evs) if e.k == 'enter' and e.q == 'lp::bus::Subscriber::Receive']
            eq, wild = match_atoms(f, topics, pats)
            matched = eq is True or wild is True
            unmatched = eq is False and wild is False
            nullcb = any(a[0] == 'null' and v and any(contains(a[1], lambda t, o=o: t == o) for o in obj) for a, v in f)
            exempt = m.is_flag_false(f)
            if calls:
                if want == 'delivery':
                    c.ob(len(calls) == 1 and len(inl) == 1, 'a subscriber is called at most once per message', calls[-1], '%d calls' % len(calls))
                    c.ob(all(e.args == (M,) for e in calls), 'a subscriber is handed the message unchanged', calls[0], show(calls[0].args))
                c.ob(matched, 'a subscriber is only called when topic and pattern match', calls[0], facts_text(f))
            elif not (exempt or unmatched or nullcb):
                c.ob(False, 'a subscriber whose topic matches is called', evs[-1] if evs else lp, 'not called when ' + facts_text(f))
            else:
                c.ob(True, 'a subscriber whose topic matches is called', lp)

    def topic_of(self, obj):
        f = self.c.one('lp::bus::BusParticipant::GetTopic', 0)
        key = ('topic', obj)
        if key not in self.c.cache:
            vs = [x.val for x in self.c.run(f, this=obj[1]) if x.kind == 'return']
            self.c.cache[key] = vs[0] if vs else ('unk',)
        return self.c.cache[key]

    def child_loop(self, lp, M, recfn):
        c = self.c
        c.ob(lp.full, 'the pass over the child buses visits every child', lp)
        el = self.elem(lp)
        for b in lp.bodies:
            evs = b['events']
            f = list(b['facts'])
            if self.m.is_flag_false(f):
                continue
            c.ob(b['kind'] == 'next', 'one child bus does not end the pass over the child buses', evs[-1] if evs else lp, b['kind'])
            calls = [e for e in flatten(evs) if e.k == 'call' and e.rec]
            inl = [e for e in straight(evs) if e in calls]
            nulls = any(a[0] == 'null' and v and a[1] in el for a, v in f)
            roots = [('deref', x) for x in el]
            off = any(self.m.is_flag((a[0], ('ard', a[1][1], (THIS, a[1][2][1])))) and v is False and a[1][2][0] in roots for a, v in f if a[0] == 'b' and a[1][0] == 'ard')
            if (nulls or off) and not calls:
                continue
            ok = len(calls) == 1 and len(inl) == 1 and calls[0].rloc is not None and calls[0].rloc[0] in [('deref', x) for x in el] and not calls[0].rloc[1]
            c.ob(ok, 'the message is passed to every child bus exactly once', calls[-1] if calls else (evs[-1] if evs else lp), '%d calls when %s' % (len(calls), facts_text(f)))
            if ok:
                c.ob(M in calls[0].args, 'a child bus is handed the message unchanged', calls[0], show(calls[0].args))
                recfn.add(calls[0].id)

    def whole(self, want):
        """walk the worker loop"""
        c, m = self.c, self.m
        if not m.queue:
            c.ob(False, 'publishing puts the message into the queue', m.publish)
            return
        paths = c.run(m.run_f, pre=m.pre_root)
        for x in paths:
            if want == 'delivery':
                c.ob(x.kind == 'return', 'the worker loop does not end with an exception', x.val.src if x.kind == 'throw' else x)
                c.ob(m.is_flag_false(list(x.facts.items())), 'the worker loop ends only when a stop was requested', x, facts_text(x.facts))
        x = paths[0]
        recfn = set()
        outer = [e for e in x.events if e.k == 'loop']
        if not c.ob(len(outer) >= 1, 'the worker repeats taking messages', m.run_f):
            return
        for y in paths if want == 'delivery' else ():
            last = max([i for i, e in enumerate(y.events) if e.k == 'loop'] + [-1])
            for e in y.events[:last + 1]:
                if e.k == 'acc' and e.rw == 'w' and e.loc == m.queue and unmoved(e.val) != unmoved(e.old):
                    c.ob(False, 'messages are only taken in the rounds of the worker', e, show(e.val))
        nd = 0
        for lp in outer:
            for b in lp.bodies:
                nd += self.body(b['events'], list(b['facts']), want, recfn, b['kind'], lp)
        c.ob(nd > 0, 'the worker takes messages from the queue', m.run_f)
        # what a child does with a message handed to it
        for fid in recfn:
            f = c.prog.funcs.get(fid)
            if f is None:
                continue
            for x in c.run(f):
                if x.kind == 'throw':
                    if want == 'delivery':
                        c.ob(False, 'handing a message out does not fail', x.val.src)
                    continue
                M = ('p', 0)
                ex = m.is_flag_false(list(x.facts.items()))
                sl, kl = self.dispatch(x.events, x.facts, M, recfn, ex)
                if not ex:
                    for l in sl:
                        self.subscriber_loop(l, M, want)
                    if want == 'delivery':
                        for l in kl:
                            self.child_loop(l, M, set())

    def body(self, evs, facts, want, recfn, kind, lp):
        """one iteration of the worker loop; returns the number of takes"""
        c, m = self.c, self.m
        q = m.queue
        taken = []
        for i, e in enumerate(evs):
            if e.k == 'acc' and e.rw == 'w' and e.loc[0] == q[0] and e.loc[1][:len(q[1])] == q[1]:
                old = unmoved(e.old)
                if e.loc == q and e.val == EMPTY and old == EMPTY:
                    continue
                if e.loc == q and e.val == EMPTY:
                    taken.append((i, 'all', old))
                elif e.loc == q and e.val[0] == 'popf' and unmoved(e.val[1]) == old:
                    taken.append((i, 'one', old))
                else:
                    c.ob(False, 'the worker only takes messages from the front of the queue', e, show(e.val))
        stopped = m.is_flag_false(facts)
        for i, how, V in taken:
            rest = evs[i + 1:]
            if how == 'one':
                M = seq_front(V)
                self.handle(evs, facts, M, want, recfn, stopped, e=evs[i])
                continue
            ls = [e for e in evs if e.k == 'loop' and self.consumes(e, V)]
            if not ls and (stopped or self.known_empty(V, facts)):
                continue
            if c.ob(len(ls) == 1, 'all messages taken from the queue are handed out, once', evs[i], '%d passes over them when %s' % (len(ls), facts_text(facts))):
                l = ls[0]
                M = self.consumes(l, V)
                for b in l.bodies:
                    f = list(b['facts'])
                    s2 = m.is_flag_false(f)
                    if b['kind'] != 'next' and not s2:
                        if want == 'delivery':
                            c.ob(False, 'handing out one message does not end handing out the others', b['events'][-1] if b['events'] else l, b['kind'])
                        continue
                    self.handle(b['events'], f, M, want, recfn, s2, e=l)
        # the worker's loop may pop inside an inner loop that holds the queue
        n = len(taken)
        for l in [e for e in evs if e.k == 'loop']:
            if any(w for b in l.bodies for w in writes(b['events'], q)):
                for b in l.bodies:
                    n += self.body(b['events'], list(b['facts']), want, recfn, b['kind'], l)
        if want == 'delivery':
            for e in evs:
                if e.k == 'call' and e.q and e.q.startswith('std::') and False:
                    pass
        return n

    @staticmethod
    def known_empty(V, facts):
        return V == EMPTY or (('empty', V), True) in list(facts)

    def consumes(self, l, V):
        """loop l goes over the whole sequence V oldest first: the message term, else None"""
        if l.kind == 'foreach' and l.full and unmoved(l.cont) == V:
            return sel_at(l.cont, ('ind', l.id))
        if l.kind == 'loop' and l.guard and len(l.guard) == 1 and len(l.guard[0]) == 1:
            (a, v), = l.guard[0]
            if a[0] == 'empty' and v is False and a[1][0] == 'lv' and a[1][1] == l.id:
                loc = a[1][2]
                if unmoved(l.pre.get(loc, ())) == V and all(b['kind'] != 'next' or b['upd'].get(loc) == ('popf', a[1]) for b in l.bodies):
                    return seq_front(a[1])
        return None

    def handle(self, evs, facts, M, want, recfn, stopped, e=None):
        sl, kl = self.dispatch(evs, facts, M, recfn, stopped)
        if stopped:
            return
        for l in sl:
            self.subscriber_loop(l, M, want)
        if want == 'delivery':
            for l in kl:
                self.child_loop(l, M, recfn)


def c01(c):
    m = BusModel(c)
    d = Delivery(c, m)
    if not c.ob(m.queue is not None, 'publishing on a bus puts the message into its queue', m.publish):
        return
    for x in m.pub_paths:
        appended(c, m, x, m.queue, 'Publish', ('p', 0))
    # a publisher publishes (identifier, topic, datagram) on its bus
    for f in c.any(BUS + '::CreatePublisher', 1):
        for x in c.run(f, pre=m.pre_root):
            if not c.ob(x.kind == 'return', 'creating a publisher does not fail', x.val.src if x.kind == 'throw' else f):
                continue
            via_publisher(c, m, x, x.val, m.queue, 'Publisher', ('fldid', THIS))
    # a child bus publishes into the queue of its parent
    for f in c.any(BUS + '::CreateChildBus', 1):
        for x in c.run(f, pre=m.pre_root):
            if x.kind != 'return':
                continue
            if any(e.k == 'loop' for e in x.events):
                pass
            for y in c.anytime(m.publish, x, this=strip_own(x.val), args=[('p', 0)]):
                appended(c, m, y, m.queue, 'Publish on a child bus', ('p', 0))
    # subscribers hand on what they receive
    receive_passes(c, m)
    d.whole('delivery')
    # nothing else touches the queue
    work = {e.src[:2] for x in c.run(m.run_f, pre=m.pre_root) for e in writes(list(flatten(x.events)), m.queue)}
    ok_fns = {m.publish['id'], m.run_f['id'], m.ctor_root['id'], m.ctor_child['id']}
    for f in c.prog.methods.get(BUS, []):
        if f['id'] in ok_fns or f.get('dtor') or f.get('isctor') or f.get('implicit') or f.get('acc') != 0:
            continue
        for x in c.run(f, pre=m.pre_root):
            for e in writes(list(flatten(x.events)), m.queue):
                if e.val[0] == 'app' and e.val[1] == e.old:
                    continue
                if e.src[:2] in work:
                    continue
                c.ob(False, 'only the worker takes messages from the queue', e, show(e.val))


def via_publisher(c, m, x, pub, qloc, what, ident):
    pf = c.one('lp::bus::Publisher::Publish', 1)
    for y in c.anytime(pf, x, this=strip_own(pub), args=[('p', 'dg')]):
        msg = appended(c, m, y, qloc, what)
        if msg is None:
            continue
        c.ob(m.getter('GetDatagram', msg) == ('p', 'dg'), what + ': the message carries the published datagram', pf, show(msg))
        c.ob(m.getter('GetTopic', msg) == ('p', 0), what + ': the message carries the topic of the publisher', pf, show(msg))
        idv = {z.val for z in c.run(c.one('lp::Identifiable::GetIdentifier', 0))}
        c.ob(m.getter('GetSender', msg) in idv, what + ': the message carries the identifier of the bus as sender', pf, show(msg))


def receive_passes(c, m):
    rc = c.one('lp::bus::Subscriber::Receive', 1)
    S = 'lp::bus::Subscriber'
    dgm = None
    for f in c.any(S + '::Subscriber', 2):
        for x in c.run(f):
            if x.kind == 'return':
                check_cb(c, m, x, rc, PTHIS, ('p', 1), 'datagram', f)
    for nm, kind in (('SetDatagramCallback', 'datagram'), ('SetMessageCallback', 'message')):
        for f in c.any(S + '::' + nm, 1):
            for x in c.run(f):
                if c.ob(x.kind == 'return', 'setting a callback does not fail', f):
                    check_cb(c, m, x, rc, PTHIS, ('p', 0), kind, f)


def check_cb(c, m, x, rc, this, cb, kind, f):
    # the lock of the subscriber is free again: its fields keep their values between the two calls of one thread
    for y in c.anytime(rc, x, this=this, args=[('p', 'msg')]):
        calls = [e for e in flatten(y.events) if e.k == 'fcall']
        isnull = any(a == ('null', cb) and v for a, v in y.facts.items())
        want = m.getter('GetDatagram', ('p', 'msg')) if kind == 'datagram' else ('p', 'msg')
        if isnull and not calls:
            c.ob(True, 'a received message is passed to the callback', f)
            continue
        c.ob(len(calls) == 1 and calls[0] in straight(y.events) and calls[0].fv == cb and calls[0].args == (want,),
             'a received message is passed to the callback exactly once and unchanged', calls[0] if calls else f,
             ' '.join('%s(%s)' % (show(e.fv), show(e.args)) for e in calls))


def c02(c):
    m = BusModel(c)
    d = Delivery(c, m)
    d.whole('match')
