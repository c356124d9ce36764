"""More rules about the message bus: waking the worker, participants, errors, shutdown,
stored callbacks, actions."""
from ..core import *
from .bus import *

PUB = 'lp::bus::Publisher'
SUB = 'lp::bus::Subscriber'
AP = 'lp::bus::ActionProvider'
AC = 'lp::bus::ActionConsumer'
ARGNULL = 'lp::exceptions::ArgumentNullException'


def terms_of(loc):
    return path_get(('init', loc[0]), loc[1])


# ------------------------------------------------------------------- C03
def c03(c):
    m = BusModel(c)
    if not c.ob(m.queue is not None, 'publishing on a bus puts the message into its queue', m.publish):
        return
    q = m.queue
    qm, cvs = set(), set()
    for x in m.pub_paths:
        flat = x.events
        for i, e in enumerate(flat):
            if e in writes([e], q) and e.val[0] in ('app', 'pre', 'appall'):
                nonempty = e.facts.get(('empty', e.old)) is False
                after = [y for y in flat[i + 1:] if y.k == 'notify']
                # a notification before the message is in the queue may find the worker's condition still false
                if nonempty:
                    c.ob(True, 'the worker is notified after a message was queued', e)
                else:
                    c.ob(bool(after), 'the worker is notified after a message was queued', e, 'no notification follows when ' + facts_text(x.facts))
                cvs |= {y.cv for y in after}
                qm |= {h for h in e.held}
                c.ob(bool(e.held), 'the queue is filled under a mutex', e)
    waits = []
    for x in c.run(m.run_f, pre=m.pre_root):
        waits += [e for e in flatten(x.events) if e.k == 'wait']
    seen, uw = set(), []
    for e in waits:
        k = (e.src, repr(e.d.get('predouts')), e.m)
        if k not in seen:
            seen.add(k)
            uw.append(e)
    qwaits = [e for e in uw if e.cv in cvs]
    c.ob(bool(qwaits), 'the worker waits for the notification of a queued message', m.run_f, 'waits on %s' % [show_loc(e.cv) for e in uw if e.cv])
    for e in qwaits:
        c.ob(e.m is not None and e.m in qm and e.owned, 'the worker waits under the mutex that guards filling the queue', e,
             'waits with %s, the queue is filled under %s' % (show_loc(e.m) if e.m else None, [show_loc(x) for x in qm]))
        if e.pred is None:
            vals = dict(e.gvals)
            v = vals.get(q)
            c.ob(v is not None and e.facts.get(('empty', unmoved(v))) is True, 'the worker only waits while the queue is empty', e)
        else:
            ok, seen_q = True, False
            for facts, v in e.predouts:
                f = dict(facts)
                qv = [val for a, val in f.items() if a[0] == 'empty' and a not in e.facts]
                ne = any(a[0] == 'empty' and val is False and qterm(a[1], q) for a, val in f.items())
                em = any(a[0] == 'empty' and val is True and qterm(a[1], q) for a, val in f.items())
                seen_q |= ne or em
                if not em and v != TRUE and not m.is_flag_false(facts):
                    ok = False
            c.ob(ok and seen_q, 'the condition the worker waits for holds as soon as the queue is not empty', e)
        c.ob(finite(e) or stop_wakes(c, m, e), 'a stop request is noticed: the wait is bounded in time or the stop notifies', e)
        c.ob(not [h for h in e.held if h != e.m], 'no other mutex is held while waiting for messages', e)
    # nothing else makes the worker sleep
    for x in c.run(m.run_f, pre=m.pre_root):
        for e in flatten(x.events):
            if e.k == 'call' and base_name(e.q) in ('sleep_for', 'sleep_until', 'sleep', 'usleep', 'nanosleep', 'join'):
                c.ob(False, 'the worker does not sleep while messages are queued', e, e.q)
            if e.k == 'wait' and e.cv not in cvs:
                c.ob(False, 'the worker does not wait for anything but messages', e)


def qterm(t, q):
    return t == path_get(('init', q[0]), q[1]) or (t[0] in ('sh', 'lv') and t[2] == q)


def finite(e):
    if not e.timed:
        return False
    d = e.dur
    return not contains(d, lambda t: t[0] in ('p',) or t == ('call', 'max')) and not contains(d, lambda t: t[0] == 'res' and base_name(t[1]) == 'max')


def stop_wakes(c, m, e):
    for x in c.run(c.one(BUS + '::Stop', 0)):
        ws = [i for i, y in enumerate(x.events) if y.k == 'acc' and y.rw == 'w' and y.loc in m.flags]
        ns = [i for i, y in enumerate(x.events) if y.k == 'notify' and y.cv == e.cv]
        if not ws or not ns or ns[-1] < ws[-1] or e.m not in x.events[ws[-1]].held:
            return False
    return True


# ------------------------------------------------------------------- C06
def c06(c):
    m = BusModel(c)
    kinds = (('subscriber', 'Subscriber', ['DeleteSubscriber', 'ContainsSubscriber']), ('publisher', 'Publisher', ['DeletePublisher', 'ContainsPublisher']))
    for what, cls, (dele, cont) in kinds:
        chan = m.channel(what)
        if not c.ob(len(chan) == 1, 'creating a %s registers it with the bus' % what, c.any(BUS + '::Create' + cls)[0], '%d places' % len(chan)):
            continue
        (lst,) = chan
        lv = terms_of(lst)
        cf = c.one(BUS + '::' + cont, 1)
        df = c.one(BUS + '::' + dele, 1)
        for f in c.any(BUS + '::Create' + cls):
            for x in c.run(f, pre=m.pre_root):
                if x.kind != 'return':
                    c.ob(False, 'creating a %s does not fail' % what, x.val.src)
                    continue
                ws = [e for e in writes(list(flatten(x.events)), lst)]
                v = strip_own(x.val)
                ok = len(ws) == 1 and ws[0] in straight(x.events) and ws[0].loc == lst and ws[0].val[0] in ('app', 'pre') and ws[0].val[1] == ws[0].old and strip_own(ws[0].val[2]) == v
                c.ob(ok, 'creating a %s registers exactly the returned one, once' % what, ws[-1] if ws else f, show(x.val))
                c.ob(v[0] == 'addr' and v[1][0][0] == 'obj', 'creating a %s returns a new one' % what, f, show(v))
                for e in ws:
                    c.ob(bool(e.held), 'the list of %ss is changed under a mutex' % what, e)
                # it is contained now
                for y in c.cont(cf, x, args=[x.val]):
                    c.ob(y.kind == 'return' and y.val == TRUE, 'a created %s is contained in the bus' % what, cf, show(y.val) if y.kind == 'return' else '')
        # contained iff in the list
        for y in c.run(cf):
            ins = [v for a, v in y.facts.items() if a[0] == 'in' and a[1] == ('p', 0) and a[2] == lv]
            c.ob(y.kind == 'return' and y.val in (TRUE, FALSE) and ins == [y.val == TRUE], 'a %s is reported as contained exactly when it is registered' % what, cf,
                 '%s when %s' % (show(y.val), facts_text(y.facts)))
            for e in writes(list(flatten(y.events))):
                c.ob(False, 'asking for a %s changes nothing' % what, e)
        # delete
        for x in c.run(df):
            if not c.ob(x.kind == 'return', 'deleting a %s does not fail' % what, x.val.src if x.kind == 'throw' else df):
                continue
            ws = writes(list(flatten(x.events)), lst)
            end = x.get(lst)
            absent = x.facts.get(('in', ('p', 0), lv)) is False
            c.ob(end == ('rem', lv, ('p', 0)) or absent and end == lv, 'deleting a %s takes exactly this one out of the bus' % what, ws[-1] if ws else df, show(end))
            for y in c.cont(cf, x, args=[('p', 0)]):
                c.ob(y.val == FALSE or y.kind == 'return' and y.val == FALSE, 'a deleted %s is no longer contained in the bus' % what, cf)
            if what == 'publisher':
                for y in c.cont(c.one(PUB + '::Publish', 1), x, this=('p', 0), args=[('p', 'dg')]):
                    calls = [e for e in flatten(y.events) if e.k in ('fcall',)]
                    c.ob(not calls and y.kind == 'return', 'a deleted publisher publishes nothing and does not fail', calls[0] if calls else df)
            else:
                for y in c.cont(c.one(SUB + '::Receive', 1), x, this=('p', 0), args=[('p', 'msg')]):
                    calls = [e for e in flatten(y.events) if e.k in ('fcall',)]
                    c.ob(not calls and y.kind == 'return', 'a deleted subscriber calls no callback and does not fail', calls[0] if calls else df)
                # a delivery in progress: taken out under the mutex held while delivering
                rem = [e for e in ws if e.val[0] == 'rem']
                if absent and not rem:
                    continue
                rl = {h for e in rem for h in e.held if h[0] == THIS}
                nul = [e for e in writes(list(flatten(x.events))) if e.val == NULL and e.loc[0] == ('deref', ('p', 0))]
                nl = {h[1] for e in nul for h in e.held if h[0] == ('deref', ('p', 0))}
                d = Delivery(c, m)
                sites = []
                for y in c.run(m.run_f, pre=m.pre_root):
                    sites += [e for e in flatten(y.events) if e.k == 'fcall']
                for y in c.run(c.one(BUS + '::Distribute', 1)) if c.prog.fn(BUS + '::Distribute', 1) else []:
                    sites += [e for e in flatten(y.events) if e.k == 'fcall']
                us = {}
                for e in sites:
                    us.setdefault((e.src, e.held), e)
                for e in us.values():
                    ok = any(h in rl for h in e.held) or any(h[1] in nl for h in e.held if h[0] != THIS)
                    c.ob(ok, 'no callback is still running or started once deleting its subscriber has returned', e,
                         'called while holding %s, deleted while holding %s' % ([show_loc(h) for h in e.held], [show_loc(h) for h in rl]))
                c.ob(bool(us), 'delivery sites found', m.run_f)


# ------------------------------------------------------------------- C07
def bus_functions(c, classes=(BUS, PUB, SUB, AP, AC)):
    r = []
    for cls in classes:
        for f in c.prog.methods.get(cls, []):
            if f.get('implicit') or f.get('defaulted'):
                continue
            r.append(f)
    return r


def outliving(x):
    """functions of the lambdas on path x that are stored, handed on or returned"""
    r = set()
    for e in flatten(x.events):
        ts = []
        if e.k == 'acc' and e.rw == 'w':
            ts = [e.val]
        elif e.k in ('fcall', 'call', 'invoke', 'thread', 'new'):
            ts = list(e.args or ())
        elif e.k == 'lambda':
            ts = [k[2] for k in e.caps if k[0] == 'val']
        for t in ts:
            if isinstance(t, tuple):
                r |= {y[1] for y in subterms(t) if y[0] == 'lambda'}
    if isinstance(x.val, tuple):
        r |= {y[1] for y in subterms(x.val) if y[0] == 'lambda'}
    return r


def lambda_runs(c, f, paths, done, overlay=None, pol=None):
    """paths of the lambdas that `paths` create and that outlive their creation"""
    r = []
    for x in paths:
        out = outliving(x)
        ran = {e.f for e in flatten(x.events) if e.k == 'enter'}
        for e in flatten(x.events):
            if e.k == 'lambda' and e.fn in c.prog.funcs and (e.fn in out or e.fn not in ran):
                g = c.prog.funcs[e.fn]
                key = (e.fn, tuple((k[0], k[3] if len(k) > 3 else '', k[2][:2] if k[0] == 'val' and len(k) > 2 else None) for k in e.caps))
                if key in done:
                    continue
                done.add(key)
                la = [('p', 'l%d' % i) for i in range(len(g['params']))]
                ps = c.cont(g, x, caps=e.caps, args=la, pol=pol) if overlay is None else c.cont(g, x, caps=e.caps, args=la, pol=pol, pre=overlay)
                r.append((g, ps))
                r += lambda_runs(c, g, ps, done, overlay, pol)
    return r


def c07(c):
    done = set()
    n = 0
    for f in bus_functions(c):
        ps = c.run(f)
        todo = [(f, ps)] + lambda_runs(c, f, ps, done)
        for g, qs in todo:
            for x in qs:
                for e in flatten(x.events):
                    if e.k == 'invoke' and e.fv[0] not in ('lambda', 'func', 'bind'):
                        n += 1
                        c.ob(e.facts.get(('null', e.fv)) is False, 'a stored callback is only called when it is set', e, 'called without a test on %s when %s' % (show(e.fv)[:120], facts_text(e.facts)))
    c.ob(n > 0, 'calls of stored callbacks found', None)


# ------------------------------------------------------------------- C08
def contract(c, f, paths, cases, noeffect=True, what=''):
    """cases: [(label, test(facts) -> True/False/None, exception type, arg test)]; first that is true must be thrown.
    A path that returns must have decided every case false."""
    for x in paths:
        facts = x.facts
        d = [t(facts) for _, t, _, _ in cases]
        if x.kind == 'throw':
            e = x.val
            hit = [i for i, v in enumerate(d) if v is True]
            ok = False
            for i in hit:
                _, _, tt, argt = cases[i]
                if e.tt == tt and (argt is None or argt(e.args)):
                    ok = True
            c.ob(ok, what + 'an error is raised exactly when the arguments call for it, and it is the right one', e.src, '%s(%s) when %s' % (e.tt, ', '.join(show(a) for a in e.args), facts_text(facts)))
            ws = [w for w in writes(list(flatten(x.events))) if w.loc[0][0] not in ('obj',)] if noeffect else []
            pc = [w for w in flatten(x.events) if w.k == 'fcall'] if noeffect else []
            c.ob(not ws and not pc, what + 'nothing has changed when an error is raised', (ws + pc + [None])[0] or e.src)
        else:
            for (label, _, tt, _), v in zip(cases, d):
                c.ob(v is False, what + label, x, 'accepted when ' + facts_text(facts))


def fact(atom):
    return lambda facts: facts.get(atom)


def c08(c):
    m = BusModel(c)
    # names and functions must be given
    contract(c, m.ctor_root, c.run(m.ctor_root), [('an empty bus name is rejected', fact(('empty', ('p', 0))), ARGNULL, None)], noeffect=False, what='bus: ')
    contract(c, m.ctor_child, c.run(m.ctor_child), [
        ('an empty bus name is rejected', fact(('empty', ('p', 0))), ARGNULL, None),
        ('a bus without a publishing function is rejected', fact(('null', ('p', 1))), ARGNULL, None)], noeffect=False, what='bus: ')
    pc = c.one(PUB + '::Publisher', 2)
    contract(c, pc, c.run(pc), [('a publisher without a publishing function is rejected', fact(('null', ('p', 1))), ARGNULL, None)], noeffect=False, what='publisher: ')
    ra = c.one(AC + '::RequestAsync', 2)
    contract(c, ra, c.run(ra), [('a request without a callback is rejected', fact(('null', ('p', 1))), ARGNULL, None)], what='request: ')
    # children
    kids = m.channel('child')
    cc = c.one(BUS + '::CreateChildBus', 1)
    gc = c.one(BUS + '::GetChildBus', 1)
    if not c.ob(len(kids) == 1, 'creating a child bus registers it with its parent', cc, '%d places' % len(kids)):
        return
    (kl,) = kids
    kv = terms_of(kl)
    inn = ('in', ('p', 0), kv)
    key = lambda args: bool(args) and args[0] == ('p', 0)
    cases = [('a child bus without a name is rejected', fact(('empty', ('p', 0))), ARGNULL, None),
             ('a second child bus of the same name is rejected', fact(inn), 'lp::exceptions::DuplicateKeyException', key)]
    paths = [x for x in c.run(cc, pre=m.pre_root)]
    contract(c, cc, paths, cases, what='child bus: ')
    for x in paths:
        if x.kind != 'return':
            continue
        v = strip_own(x.val)
        end = x.get(kl)
        c.ob(end == ('put', kv, ('p', 0), x.val) or end == ('put', kv, ('p', 0), v), 'a created child bus is registered under its name', cc, show(end))
        c.ob(v[0] == 'addr' and v[1][0][0] == 'obj', 'creating a child bus returns a new one', cc, show(v))
        if v[0] != 'addr':
            continue
        on = False
        for fl in m.flags:
            on |= x.get((v[1][0], v[1][1] + fl[1])) == TRUE
        c.ob(on, 'a created child bus is started', cc)
        for y in c.cont(c.one('lp::Identifiable::GetIdentifier', 0), x, this=v):
            c.ob(y.val == ('p', 0), 'a created child bus carries the given name', cc, show(y.val))
        for y in c.cont(gc, x, args=[('p', 0)]):
            c.ob(y.kind == 'return' and strip_own(y.val) == v, 'a created child bus is found under its name', gc)
    contract(c, gc, c.run(gc), [('asking for a child bus that does not exist is an error', lambda f: None if f.get(inn) is None else not f.get(inn), 'lp::exceptions::KeyNotFoundException', key)], what='child bus: ')
    for x in c.run(gc):
        if x.kind == 'return':
            c.ob(strip_own(x.val) == sel_at(kv, ('p', 0)), 'the child bus found is the one of that name', gc, show(x.val))
    dc = c.one(BUS + '::DeleteChildBus', 1)
    for x in c.run(dc, pre=m.pre_root):
        if not c.ob(x.kind == 'return', 'deleting a child bus does not fail', x.val.src if x.kind == 'throw' else dc):
            continue
        end = x.get(kl)
        c.ob(end == ('del', kv, ('p', 0)) or end == kv and x.facts.get(inn) is False, 'deleting a child bus removes the one of that name and no other', dc, show(end)[:80])
        for y in c.cont(gc, x, args=[('p', 0)]):
            c.ob(y.kind == 'throw' and y.val.tt == 'lp::exceptions::KeyNotFoundException', 'a deleted child bus is not found any more', gc)
    # starting a child returns; starting the root runs its worker loop
    sf = c.one(BUS + '::Start', 0)
    for ctor, root in ((m.ctor_root, True), (m.ctor_child, False)):
        for x in c.run(ctor):
            if x.kind != 'return':
                continue
            for y in c.cont(sf, x, this=PTHIS):
                sets = [i for i, e in enumerate(y.events) if e.k == 'acc' and e.rw == 'w' and e.loc in m.flags and switches_on(e)]
                lo = [i for i, e in enumerate(y.events) if e.k in ('wait', 'loop')]
                c.ob(bool(sets), 'a started bus is marked as running', sf)
                if root:
                    c.ob(bool(lo) and bool(sets) and sets[0] < lo[0], 'starting the root bus runs its worker', sf)
                else:
                    c.ob(not lo, 'starting a child bus returns to the caller', sf)


# ------------------------------------------------------------------- C10
def c10(c):
    m = BusModel(c)
    if not c.ob(m.queue is not None, 'publishing on a bus puts the message into its queue', m.publish):
        return
    kids = m.channel('child')
    det = c.one(BUS + '::Detach', 0)
    dt = [f for f in c.prog.methods.get(BUS, []) if f.get('dtor')]
    if not c.ob(len(dt) == 1 and not dt[0].get('defaulted') and not dt[0].get('implicit'), 'a destroyed bus detaches its children', m.publish):
        return
    dt = dt[0]
    chans = {w: m.channel(w) for w in ('subscriber', 'publisher')}
    cleared = {}
    for cls, what in ((PUB, 'publisher'), (SUB, 'subscriber')):
        rs = c.one(cls + '::Reset', 0)
        pub = c.one(cls + ('::Publish' if cls == PUB else '::Receive'), 1)
        ok = True
        for x in c.run(rs):
            for y in c.cont(pub, x, this=PTHIS, args=[('p', 'x')]):
                calls = [e for e in flatten(y.events) if e.k == 'fcall']
                c.ob(not calls and y.kind == 'return', 'a reset %s does nothing any more and does not fail' % what, calls[0] if calls else rs)
        cleared[what] = {(e.loc[1]) for x in c.run(rs) for e in writes(list(flatten(x.events))) if e.val == NULL}
    for f in (det, dt):
        what = 'detaching' if f is det else 'destroying'
        for x in c.run(f, pre=m.pre_root):
            if not c.ob(x.kind == 'return', what + ' a bus does not fail', x.val.src if x.kind == 'throw' else f):
                continue
            for y in c.cont(m.publish, x, this=PTHIS, args=[('p', 'msg')]):
                ws = writes(list(flatten(y.events)), m.queue)
                calls = [e for e in flatten(y.events) if e.k == 'fcall']
                c.ob(y.kind == 'return' and not ws and not calls, 'after %s a bus, publishing on it does nothing and does not fail' % what, f)
            ls = [e for e in x.events if e.k == 'loop' and e.cont is not None and any(e.cont == terms_of(k) or e.cont[0] == 'sh' and e.cont[2] == k for k in kids)]
            if c.ob(len(ls) >= 1 and all(l.full for l in ls), '%s a bus stops and detaches every child bus' % what, f, '%d passes over the children' % len(ls)):
                stopped = detached = False
                for l in ls:
                    el = {sel_at(l.cont, ('ind', l.id)), sel_at(l.cont, ('key', l.cont, ('ind', l.id)))}
                    roots = [('deref', t) for t in el]
                    st = all(any(e.k == 'acc' and e.rw == 'w' and switches_off(e) and e.loc[0] in roots and (THIS, e.loc[1]) in m.flags for e in straight(b['events'])) for b in l.bodies)
                    dd = all(any(e.k == 'call' and e.rec and e.id == det['id'] and e.rloc is not None and e.rloc[0] in roots for e in straight(b['events']))
                             or any(e.k == 'enter' and e.f == det['id'] and e.this in [('addr', (r, ())) for r in roots] + list(el) for e in straight(b['events'])) for b in l.bodies)
                    ne = all(b['kind'] == 'next' for b in l.bodies)
                    c.ob(ne, '%s a bus reaches every child' % what, l)
                    stopped |= st
                    detached |= dd
                c.ob(stopped, '%s a bus stops every child bus' % what, ls[0])
                c.ob(detached, '%s a bus detaches every child bus' % what, ls[0])
            if f is dt:
                for w, chan in chans.items():
                    ls = [e for e in x.events if e.k == 'loop' and e.cont is not None and any(e.cont == terms_of(k) or e.cont[0] == 'sh' and e.cont[2] == k for k in chan)]
                    ok = False
                    for l in ls:
                        roots = [('deref', sel_at(l.cont, ('ind', l.id)))]
                        el = sel_at(l.cont, ('ind', l.id))
                        good = l.full
                        for b in l.bodies:
                            if any(a == ('null', el) and v for a, v in b['facts']):
                                continue
                            good &= b['kind'] == 'next' and any(e.k == 'acc' and e.rw == 'w' and e.val == NULL and e.loc[0] in roots and e.loc[1] in cleared[w] for e in straight(b['events']))
                        ok |= good
                    c.ob(ok, 'a %s that outlives its bus no longer refers to it' % w, f)
    handed_out_while_running(c, m)
    stays_off(c, m)
    # whoever else lets go of a child
    for f in c.prog.methods.get(BUS, []):
        if f.get('isctor') or f.get('dtor') or f['id'] == det['id'] or f.get('acc') != 0:
            continue
        for x in c.run(f, pre=m.pre_root):
            for k in kids:
                evs = list(x.events)
                for i, e in enumerate(evs):
                    if e.k == 'loop':
                        for w in writes(list(flatten([e])), k):
                            c.ob(w.val[0] in ('put', 'app', 'ins'), 'a child bus that is let go of is stopped and detached first', w, show(w.val)[:60])
                    elif e.k == 'acc' and e.rw == 'w' and e.loc == k and e.val is not None:
                        v = e.val
                        if v[0] == 'del':
                            el = {sel_at(v[1], v[2]), ('at', v[1], v[2])}
                            roots = [('deref', t) for t in el]
                            st = any(y.k == 'acc' and y.rw == 'w' and switches_off(y) and y.loc[0] in roots and (THIS, y.loc[1]) in m.flags for y in evs)
                            dd = any(y.k == 'call' and y.rec and y.id == det['id'] and y.rloc is not None and y.rloc[0] in roots
                                     or y.k == 'enter' and y.f == det['id'] and y.this in [('addr', (r, ())) for r in roots] + list(el) for y in evs)
                            c.ob(st and dd, 'a child bus that is let go of is stopped and detached first', e, 'not ' + ('stopped' if not st else 'detached'))
                        else:
                            c.ob(v[0] in ('put', 'app', 'ins') or v == path_get(('init', THIS), k[1]), 'a child bus that is let go of is stopped and detached first', e, show(v)[:60])


def stays_off(c, m):
    """only starting a bus turns it on, and that before its worker runs"""
    what = 'a bus is only turned on by starting it, before its worker runs'
    fields = {loc[1] for loc in m.flags}
    n = 0
    for f in c.prog.methods.get(BUS, []):
        if f.get('isctor') or f.get('acc') != 0 and f['id'] != m.run_f['id'] or f.get('implicit'):
            continue
        for x in c.run(f, pre=m.pre_root):
            evs = list(x.events)
            work = [i for i, e in enumerate(evs) if e.k == 'loop' or e.k == 'enter' and e.f == m.run_f['id'] or e.k == 'call' and e.id == m.run_f['id']]
            for e in writes(list(flatten(evs))):
                if e.loc[1] not in fields or switches_off(e):
                    continue
                n += 1
                if e.loc[0][0] == 'obj':
                    c.ob(True, what)
                    continue
                ok = f['q'] == BUS + '::Start' and switches_on(e) and e.loc[0] == THIS and e in evs
                c.ob(ok and all(evs.index(e) < i for i in work[:1]), what, e, show(e.val)[:80])
    c.ob(n > 0, what, m.run_f, 'never turned on')


def handed_out_while_running(c, m):
    """a child bus that was stopped calls none of its subscribers"""
    what = 'a bus that was stopped hands out nothing'
    fields = {loc[1] for loc in m.flags}

    def running(facts, roots):
        return any(a[0] == 'b' and a[1][0] == 'ard' and v is True and a[1][2][0] in roots and a[1][2][1] in fields for a, v in facts.items())

    sites, todo = {}, [m.run_f]
    while todo:
        f = todo.pop()
        for x in c.run(f, pre=m.pre_root if f is m.run_f else None):
            for e in flatten(x.events):
                if e.k == 'call' and e.rec and e.rloc is not None and c.prog.funcs.get(e.id):
                    if e.id not in sites:
                        todo.append(c.prog.funcs[e.id])
                    sites.setdefault(e.id, []).append(e)
    if not c.ob(bool(sites), 'messages are handed to the child busses', m.run_f):
        return
    for fid, es in sites.items():
        f = c.prog.funcs[fid]
        asked = all(running(e.facts, [e.rloc[0]]) for e in es)
        n = 0
        for x in c.run(f):
            for e in flatten(x.events):
                if e.k == 'fcall':
                    n += 1
                    c.ob(asked or running(e.facts, [THIS]), what, e, 'the run flag is not known to be set')
        c.ob(n > 0, 'a child bus hands messages to its subscribers', f)


# ------------------------------------------------------------------- C11
def kept(t):
    """a map value without the marks of elements moved out of it"""
    while isinstance(t, tuple) and t and t[0] == 'put' and isinstance(t[3], tuple) and t[3] and t[3][0] == 'movedfrom':
        t = t[1]
    return t


def dg_at(term, key):
    return sel_at(term, C(key))


def regged(x, chan, cls):
    """objects of class cls created on the path and registered in the list at chan"""
    (loc,) = chan
    r = []
    for e in writes(list(flatten(x.events)), loc):
        if e.val[0] in ('app', 'pre'):
            r.append(strip_own(e.val[2]))
    return r


def topic_of(c, x, obj):
    vs = {y.val for y in c.cont(c.one('lp::bus::BusParticipant::GetTopic', 0), x, this=obj)}
    return vs.pop() if len(vs) == 1 else ('many',)


def held_nothing(e):
    return not e.held


def c11(c):
    m = BusModel(c)
    if not c.ob(m.queue is not None, 'publishing on a bus puts the message into its queue', m.publish):
        return
    subs, pubs = m.channel('subscriber'), m.channel('publisher')
    MSG = ('p', 'msg')
    D = m.getter('GetDatagram', MSG)
    ID = ('dget', 'id')

    def is_id(t):
        return t[0] == 'dget' and t[2] == D and t[3] and t[3][0] == C('invocationId') or t == dg_at(D, 'invocationId')
    rcv = c.one(SUB + '::Receive', 1)
    # ---- provider
    for f in c.any(BUS + '::CreateActionProvider', 2):
        for x in c.run(f, pre=m.pre_root):
            if not c.ob(x.kind == 'return', 'creating an action provider does not fail', x.val.src if x.kind == 'throw' else f):
                continue
            inst = strip_own(x.val)
            ss = regged(x, subs, SUB)
            if c.ob(len(ss) == 1, 'an action provider listens with one subscriber', f, str(len(ss))):
                c.ob(topic_of(c, x, ss[0]) == cat(('p', 0), C('/request')), 'an action provider listens on <topic>/request', f, show(topic_of(c, x, ss[0])))
                for y in c.anytime(rcv, x, this=ss[0], args=[MSG]):
                    calls = [e for e in flatten(y.events) if e.k == 'fcall' and e.fv == ('p', 1)]
                    noid = any(a[0] == 'empty' and v and is_id(a[1]) or a[0] == 'in' and a[1] == C('invocationId') and not v for a, v in y.facts.items())
                    nocb = any(a == ('null', ('p', 1)) and v for a, v in y.facts.items())
                    if y.kind == 'throw':
                        c.ob(False, 'receiving a request does not fail', y.val.src)
                    elif noid or nocb:
                        c.ob(not calls, 'a message without invocation id is no request', calls[0] if calls else f)
                    else:
                        ok = len(calls) == 1 and calls[0] in straight(y.events) and len(calls[0].args) == 3
                        if c.ob(ok, 'each request is passed to the callback of the provider exactly once', calls[-1] if calls else f, '%d calls when %s' % (len(calls), facts_text(y.facts))):
                            a = calls[0].args
                            c.ob(strip_own(a[0]) == inst, 'the callback gets the provider that received the request', calls[0], show(a[0]))
                            c.ob(is_id(a[1]), 'the callback gets the invocation id of the request', calls[0], show(a[1]))
                            c.ob(contains(a[2], lambda t: t == D), 'the callback gets the request', calls[0], show(a[2]))
            rf = c.one(AP + '::Respond', 2)
            for y in c.anytime(rf, x, this=inst, args=[('p', 'iid'), ('p', 'resp')]):
                msg = appended(c, m, y, m.queue, 'Respond')
                if msg is not None:
                    d = m.getter('GetDatagram', msg)
                    c.ob(m.getter('GetTopic', msg) == cat(('p', 0), C('/response')), 'a response is published on <topic>/response', rf, show(m.getter('GetTopic', msg)))
                    c.ob(dg_at(d, 'invocationId') == ('p', 'iid'), 'a response carries the invocation id it was given', rf, show(d))
                    c.ob(dg_at(d, 'response') == ('p', 'resp'), 'a response carries the given datagram', rf, show(d))
    # ---- consumer
    for f in c.any(BUS + '::CreateActionConsumer', 1):
        for x in c.run(f, pre=m.pre_root):
            if not c.ob(x.kind == 'return', 'creating an action consumer does not fail', x.val.src if x.kind == 'throw' else f):
                continue
            inst = strip_own(x.val)
            ra = c.one(AC + '::RequestAsync', 2)
            openloc, omut = None, None
            for y in c.anytime(ra, x, this=inst, args=[('p', 'req'), ('p', 'cb')]):
                if y.kind != 'return':
                    c.ob(any(a == ('null', ('p', 'cb')) and v for a, v in y.facts.items()), 'only a request without a callback is refused', y.val.src, facts_text(y.facts))
                    continue
                msg = appended(c, m, y, m.queue, 'RequestAsync')
                fresh = [e for e in flatten(y.events) if e.k == 'call' and e.q == 'lp::utilities::Uuid::CreateUuid']
                if any(v and a[0] in ('has', 'haskey') and any(contains(a, lambda t: t == e.res) for e in fresh) for a, v in y.facts.items()):
                    continue                            # a fresh id is in no table yet
                if msg is None:
                    continue
                d = m.getter('GetDatagram', msg)
                iid = dg_at(d, 'invocationId')
                c.ob(m.getter('GetTopic', msg) == cat(('p', 0), C('/request')), 'a request is published on <topic>/request', ra, show(m.getter('GetTopic', msg)))
                c.ob(dg_at(d, 'request') == ('p', 'req'), 'a request carries the given datagram', ra, show(d))
                c.ob(len(fresh) >= 1 and any(contains(iid, lambda t: t == e.res) for e in fresh), 'every request gets a fresh invocation id', ra, show(iid))
                reg = [(i, e) for i, e in enumerate(y.events) if e.k == 'acc' and e.rw == 'w' and contains(e.val, lambda t: t == ('p', 'cb')) and e.loc[0] == inst[1][0]]
                pub = [i for i, e in enumerate(y.events) if e in writes([e], m.queue)]
                if c.ob(len(reg) == 1, 'the callback of a request is remembered exactly once', ra, '%d times' % len(reg)):
                    i, e = reg[0]
                    loc = e.loc
                    cut = [k for k, s in enumerate(loc[1]) if not isinstance(s, str)]
                    openloc = (loc[0], loc[1][:cut[0]] if cut else loc[1])
                    k = loc[1][cut[0]][1] if cut else (e.val[2] if e.val[0] == 'put' else None)
                    c.ob(k == iid, 'the callback is remembered under the invocation id of its request', e, show(k) if k else '')
                    c.ob(pub and i < pub[0], 'the callback is remembered before its request is published', e)
                    omut = set(e.held)
                    for w in writes(list(flatten(y.events)), openloc):
                        same = w is e and (bool(cut) or kept(e.val[1]) == kept(e.old))
                        c.ob(same or w.val == w.old or w.val[0] == 'put' and w.val[2] == iid and kept(w.val[1]) == kept(w.old) or w.loc[1][len(openloc[1]):len(openloc[1]) + 1] == (('at', iid),), 'a request leaves the other open requests as they are', w, show(w.val)[:80])
                    c.ob(bool(e.held), 'open requests are kept under a mutex', e)
            if openloc is None:
                continue
            ss = regged(x, subs, SUB)
            if not c.ob(len(ss) == 1, 'an action consumer listens with one subscriber', f, str(len(ss))):
                continue
            c.ob(topic_of(c, x, ss[0]) == cat(('p', 0), C('/response')), 'an action consumer listens on <topic>/response', f, show(topic_of(c, x, ss[0])))

            def generic(st, fr):
                # any number of requests may be open
                st.store[openloc[0]] = path_set(st.store[openloc[0]], openloc[1], ('open',))
            OPEN = ('open',)
            nhit = 0
            for y in c.anytime(rcv, x, this=ss[0], args=[MSG], pre=generic):
                if y.kind == 'throw':
                    c.ob(False, 'receiving a response does not fail', y.val.src)
                    continue
                calls = [e for e in flatten(y.events) if e.k == 'fcall']
                ins = [(a, v) for a, v in y.facts.items() if a[0] == 'in' and is_id(a[1])]
                ws = writes(list(flatten(y.events)), openloc)
                if calls:
                    nhit += 1
                    e = calls[0]
                    ok = len(calls) == 1 and e in straight(y.events)
                    c.ob(ok, 'a response is passed to at most one callback, once', calls[-1])
                    k = e.fv[2] if e.fv[0] == 'at' else None
                    base = e.fv[1] if e.fv[0] == 'at' else None
                    c.ob(k is not None and is_id(k), 'a response is passed to the callback of its own request', e, show(e.fv))
                    c.ob(any(v and is_id(a[1]) for a, v in ins), 'only a response to an open request is passed on', e, facts_text(y.facts))
                    c.ob(e.args == (dg_at(D, 'response'),), 'the callback gets the response', e, show(e.args))
                    er = [w for w in ws if w.val[0] == 'del' and is_id(w.val[2])]
                    c.ob(len(er) == 1 and kept(er[0].val[1]) == kept(base), 'an answered request is forgotten in the same step that finds it', er[0] if er else e)
                    c.ob(bool(er) and y.events.index(er[0]) < y.events.index(e) if er and er[0] in y.events and e in y.events else False, 'an answered request is forgotten before its callback runs', e)
                    c.ob(all(set(w.held) & {(h[0], h[1]) for h in (omut or ())} for w in ws), 'open requests are changed under their mutex', ws[0] if ws else e)
                    c.ob(not [h for h in e.held if h[0] == openloc[0]], 'the callback runs without the mutex of the open requests', e)
                else:
                    unknown = any(v is False for a, v in ins)
                    nul = any(a[0] == 'null' and v for a, v in y.facts.items())
                    empt = any(a[0] == 'empty' and v and is_id(a[1]) for a, v in y.facts.items())
                    c.ob(unknown or nul or empt, 'a response to an open request is passed on', f, 'ignored when ' + facts_text(y.facts))
                    if unknown:
                        c.ob(all(w.val == w.old or w.val[0] == 'del' for w in ws), 'an unknown response changes nothing', ws[0] if ws else f)
            c.ob(nhit > 0, 'a response to an open request is passed on', f)
            sync_request(c, m, x, inst, openloc)


def sync_request(c, m, x, inst, openloc):
    """Request: waits for the response of its own request and returns it"""
    rq = c.one(AC + '::Request', 2)
    ARG, TMO, RESP = ('p', 'req'), ('p', 'tmo'), ('p', 'resp')
    n = 0
    for y in c.anytime(rq, x, this=inst, args=[ARG, TMO]):
        if y.kind != 'return':
            c.ob(False, 'a blocking request does not fail', y.val.src)
            continue
        n += 1
        msg = appended(c, m, y, m.queue, 'Request')
        if msg is not None:
            c.ob(dg_at(m.getter('GetDatagram', msg), 'request') == ARG, 'a blocking request carries the given datagram', rq)
        reg = [e for e in flatten(y.events) if e.k == 'acc' and e.rw == 'w' and e.loc[0] == openloc[0] and e.loc[1][:len(openloc[1])] == openloc[1]]
        cb = None
        for e in reg:
            for t in subterms(e.val):
                if t[0] == 'lambda':
                    cb = t
        if not c.ob(cb is not None, 'a blocking request remembers a callback for its response', reg[0] if reg else rq):
            continue
        bad = [k for k in cb[2] if k[0] == 'ref' or k[0] == 'val' and dangling(k[2])]
        c.ob(not bad, 'a response that arrives after the timeout does not touch what the request has left', c.prog.funcs[cb[1]], ', '.join(k[3] for k in bad))
        waits = [e for e in straight(y.events) if e.k == 'wait']
        if not c.ob(len(waits) == 1, 'a blocking request waits once', rq, '%d waits' % len(waits)):
            continue
        w = waits[0]
        pubi = [i for i, e in enumerate(y.events) if e in writes([e], m.queue)]
        c.ob(w.timed and contains(w.dur, lambda t: t == TMO), 'a blocking request waits for at most the given time', w, show(w.dur) if w.dur else '')
        c.ob(w.pred is not None, 'a blocking request waits for its response, not for any wake-up', w)
        c.ob([h for h in w.held] == [w.m] and w.owned, 'a blocking request waits with only its own mutex', w)
        c.ob(all(not h for h in [()]) and not [h for i in pubi for h in y.events[i].held if h == w.m], 'a blocking request publishes before it locks what the response needs', w)
        ret = y.val
        # the callback: sets the response and the condition under the mutex, then wakes
        lam = c.prog.funcs[cb[1]]
        for z in c.cont(lam, y, caps=cb[2], args=[RESP]):
            if z.kind != 'return':
                c.ob(False, 'receiving a response does not fail', z.val.src)
                continue
            ws = writes(straight(z.events))
            rl = [e for e in ws if e.val == RESP]
            fl = [e for e in ws if e.val in (TRUE, FALSE)]
            if c.ob(len(rl) >= 1, 'the response is handed to the waiting request', lam):
                r = rl[-1]
                c.ob(w.m in r.held, 'the response is stored under the mutex the request waits with', r)
                late = [e for e in fl if any(a[0] == 'b' and a[1][0] == 'sh' and a[1][2] == e.loc and v != (e.val == TRUE) for a, v in y.facts.items())]
                c.ob(ret[0] == 'sh' and ret[2] == r.loc or bool(late) and ret == EMPTY, 'a blocking request returns the response it received', rq, show(ret))
            nt = [i for i, e in enumerate(z.events) if e.k == 'notify' and e.cv == w.cv]
            preds = {l: cls for l, cls, at, h in (w.predreads or ())}
            flg = [e for e in fl if e.loc in preds] or [e for e in rl if e.loc in preds]
            if c.ob(len(flg) >= 1, 'the response makes the condition true the request waits for', lam):
                e = flg[-1]
                c.ob(w.m in e.held, 'the condition is changed under the mutex the request waits with', e)
                if rl:
                    c.ob(z.events.index(rl[-1]) < z.events.index(e) or w.m in rl[-1].held and w.m in e.held, 'the response is there when the condition becomes true', e)
                c.ob(bool(nt) and nt[-1] > z.events.index(e) or bool(nt) and w.m in z.events[nt[-1]].held, 'the waiting request is woken after its response is there', lam)
                c.ob(e.val != RESP, 'whatever the response is, it ends the waiting', w, 'the condition is about what the response holds')
                # polarity
                good = True
                for facts, v in w.predouts or ():
                    val = None
                    for a, b in facts:
                        if a[0] == 'b' and (a[1][0] == 'sh' and a[1][2] == e.loc or a[1] == ('fld', ('init', e.loc[0]), e.loc[1][-1])):
                            val = b
                    if val is not None and e.val in (TRUE, FALSE):
                        good &= (v == TRUE) == (val == (e.val == TRUE))
                c.ob(good, 'the request goes on waiting until its response is there', w)
            c.ob(bool(nt), 'the waiting request is woken', lam)
    c.ob(n > 0, 'blocking requests analysed', rq)


def dangling(t):
    """a pointer to a local variable"""
    return contains(t, lambda s: s[0] == 'addr' and isinstance(s[1], tuple) and s[1] and s[1][0][0] == 'v')
