"""Rules about linked processes: what the link plugin sends, receives, opens, and closes."""
import json
import os
from ..prog import base_name, REPO
from .plug import *
from .host import plain_text

MSG = 'lp::messages::Message'
RB = 'lp::data::RawBytes'
BUS = 'lp::bus::Bus'
PUB, SUB = 1, 2
SNDMORE, RCVMORE, SUBSCRIBE = 2, 13, 6
FIELDS = ('mSender', 'mTopic', 'mDatagram')
SENDS = ('zmq_send', 'zmq_send_const', 'zmq_msg_send', 'zmq_sendmsg')
RECVS = ('zmq_recv', 'zmq_msg_recv', 'zmq_recvmsg')


class LinkPolicy(Policy):
    strict = True
    opaque = ('lp::log::', 'lp::messages::Datagram', 'lp::messages::RawDatagram', MSG + '::SerializeToBytes', MSG + '::Deserialize', 'lp::bus::', 'lp::data::')

    def throws(self, ev):
        if ev.q == MSG + '::Deserialize':
            return [('lp::exceptions::InvalidOperationException', ('lp::exceptions::Exception', 'std::runtime_error', 'std::exception'))]
        return Policy.throws(self, ev)


def link_class(c):
    """the plugin class whose initialization opens sockets"""
    r = []
    for f in c.prog.funcs.values():
        if base_name(f['q']) == 'Initialize' and '/src/plugins/' in f['file'] and f['q'].count('::') >= 2:
            cls = f['q'].rsplit('::', 1)[0]
            if any(e['q'].startswith('zmq_') for e in calls_deep(c, f)):
                r.append(cls)
    if len(set(r)) != 1:
        raise AnalysisError('%d plugins open sockets' % len(set(r)))
    return r[0]


def calls_deep(c, f, seen=None):
    """every function named in f or in what it calls"""
    seen = set() if seen is None else seen
    for n in walk(f):
        g = n.get('f')
        if isinstance(g, dict) and g.get('q'):
            yield g
            h = c.prog.funcs.get(g.get('id'))
            if h and h['id'] not in seen:
                seen.add(h['id'])
                yield from calls_deep(c, h, seen)


class Link:
    """what initialization leaves behind"""
    def __init__(self, c):
        self.c = c
        self.cls = link_class(c)
        self.f = c.one(self.cls + '::Initialize', 0)
        self.paths = c.run(self.f, LinkPolicy())
        self.sockets = {}         # location -> (type, facts of a path that creates it)
        self.ctx = set()
        self.topic = None
        self.callbacks = {}
        for x in self.paths:
            self.created(x)

    def fields(self, x):
        t = x.store.get(THIS)
        r = {}

        def go(t, path):
            if t[0] == 'rec':
                for n, v in t[2]:
                    r[(THIS, path + (n,))] = unmoved(v)
                    go(v, path + (n,))
        if t is not None:
            go(t, ())
        return r

    def created(self, x):
        c, f = self.c, self.f
        fl = self.fields(x)
        for loc, v in fl.items():
            if is_call(v, 'zmq_ctx_new'):
                self.ctx.add(loc)
            if is_call(v, 'zmq_socket'):
                a = rargs(v)
                if is_const(a[-1]):
                    self.sockets.setdefault(loc, set()).add(a[-1][1])

    def of(self, ty):
        return sorted(k for k, v in self.sockets.items() if v == {ty})


def sval(loc):
    return path_get(('init', loc[0]), loc[1])


def own_id(c, cls):
    """the term of the identifier of the instance"""
    f = c.one('lp::Identifiable::GetIdentifier', 0)
    ps = c.run(f, LinkPolicy())
    if len(ps) != 1 or ps[0].kind != 'return':
        raise AnalysisError('identifier of an instance')
    return ps[0].val


def sock_arg(e):
    """the socket a zmq call works on"""
    i = 1 if e.q == 'zmq_msg_send' or e.q == 'zmq_msg_recv' else 0
    return unmoved(e.args[i]) if len(e.args) > i else NULL


def zcalls(evs, names=None):
    return [e for e in reach(evs) if e.k == 'call' and e.q.startswith('zmq_') and (names is None or e.q in names)]


def init_value(t):
    """*p as it was: the pointer"""
    t = unmoved(t)
    if t[0] in ('init',) and t[1][0] == 'deref':
        return unmoved(t[1][1])
    return None


def recv_ptr(e):
    """the pointer an opaque method was called through"""
    if e.rloc is not None and e.rloc[1] == () and e.rloc[0][0] == 'deref':
        return unmoved(e.rloc[0][1])
    if e.rloc is not None and e.rloc[1] == ():
        return ('addr', e.rloc)
    return None


def by_call(evs, t):
    """the call event that gave the value t"""
    for e in evs:
        if e.k == 'call' and e.res is not None and e.res == t:
            return e
    return None


def bytes_of(evs, t, which):
    """t is what RawBytes::<which> gave for a serialized message: that pointer"""
    e = by_call(evs, unmoved(t))
    return recv_ptr(e) if e is not None and e.q == RB + '::' + which else None


def message_of(evs, p):
    """p is the serialized form of a message: the value of that message"""
    e = by_call(evs, strip_own(unmoved(p))) if p is not None else None
    if e is None and p is not None and strip_own(unmoved(p))[0] == 'addr':
        return None
    return unmoved(e.recv) if e is not None and e.q == MSG + '::SerializeToBytes' else None


def same_message(a, b, but=()):
    return a is not None and all(unmoved(select(a, n)) == unmoved(select(b, n)) for n in FIELDS if n not in but)


# ------------------------------------------------------------------- C23
def c23(c):
    k = Link(c)
    pubs, subs = k.of(PUB), k.of(SUB)
    c.ob(bool(pubs) and bool(subs) and all(len(v) == 1 for v in k.sockets.values()), 'a link has sockets to send and to receive', k.f, str(k.sockets))
    me = own_id(c, k.cls)
    topics = set()
    n = 0
    fns = {}
    for x in k.paths:
        c.ob(x.kind == 'return', 'a link can be initialized', x.val.src if x.kind == 'throw' else k.f, outcome(x))
        made = [e for e in x.events if e.k == 'call' and e.q == BUS + '::CreateSubscriber']
        sets = [e for e in x.events if e.k == 'call' and base_name(e.q) == 'SetMessageCallback']
        w = [e for e in made if rstr(e.args) == ['/**/*']]
        ok = len(w) == 1 and len(sets) == 1 and recv_ptr(sets[0]) is not None and strip_own(recv_ptr(sets[0])) == strip_own(w[0].res) and unmoved(sets[0].args[0])[0] == 'lambda'
        c.ob(ok, 'a link listens to every message of its bus', sets[0] if sets else k.f, '%d subscribers for everything, %d callbacks' % (len(w), len(sets)))
        if ok:
            lam = unmoved(sets[0].args[0])
            fns[lam[1]] = lam
    for lam in fns.values():
        g = c.prog.funcs[lam[1]]
        for x in c.run(g, LinkPolicy(), caps=lam[2]):
            n += 1
            outgoing(c, k, x, g, pubs, me, topics)
    c.ob(n > 0, 'a link listens to every message of its bus', k.f)
    subscriptions(c, k, subs, topics)
    limits(c, k)
    incoming(c, k, subs, me)


def rstr(args):
    return [a[1] for a in args if is_const(unmoved(a))]


def outgoing(c, k, x, g, pubs, me, topics):
    c.ob(x.kind == 'return', 'sending does not fail', x.val.src if x.kind == 'throw' else g, outcome(x))
    own = prefix_truth(x.facts, cat(me, C('/')), ('fld', ('p', 0), 'mSender'))
    sends = zcalls(x.events, SENDS)
    other = [e for e in reach(x.events) if e.k == 'call' and e.q == BUS + '::Publish']
    c.ob(not other, 'a message that is sent is not published again', other[0] if other else g)
    if own is not False:
        once = 'a message that came in through the link is not sent out again'
        c.ob(not sends, once, sends[0] if sends else g, 'not tested whether it did' if own is None else '')
        if own is True:
            return
    every = 'every other message is sent through every socket that is open'
    inl = [e for e in loops(x.events) if zcalls([e], SENDS)]
    c.ob(not inl, every, inl[0] if inl else g, 'in a loop')
    for S in pubs:
        s = sval(S)
        null = fact(x.facts, ('null', s))
        mine = [e for e in x.events if e.k == 'call' and e.q in SENDS and sock_arg(e) == s]
        if null is True:
            c.ob(not mine, 'nothing is sent through a socket that is not open', mine[0] if mine else g)
            continue
        ctx = [fact(x.facts, ('null', sval(t))) for t in k.ctx]
        if own is None:
            c.ob(True in ctx, every, g, 'not tested whether it came in through the link')
            continue
        fails = any(failed_init(x, e) for e in zcalls(x.events, ('zmq_msg_init_size', 'zmq_msg_init_data')))
        if not mine and (fails or True in ctx):
            c.ob(True, every)
            continue
        if not c.ob(len(mine) == 2, every, mine[-1] if mine else g, '%d frames' % len(mine)):
            continue
        a, b = mine
        fa, fb = frame(x.events, a), frame(x.events, b)
        two = 'a message is sent as one whole: its topic, then its contents'
        ok = fa[0] == 'text' and unmoved(a.args[-1]) in (C(SNDMORE), C(SNDMORE | 1))
        if c.ob(ok, two, a, str(fa)[:80]):
            topics.add(fa[1])
        ok = fb[0] == 'message' and unmoved(b.args[-1]) in (C(0), C(1))
        c.ob(ok, two, b, str(fb)[:80])
        if fb[0] == 'message':
            c.ob(same_message(fb[1], ('p', 0)), 'what is sent is the message, unchanged', b, show(fb[1])[:100])
    odd = [e for e in sends if sock_arg(e) not in [sval(s) for s in pubs]]
    c.ob(not odd, 'messages are only sent through the sockets for sending', odd[0] if odd else g)
    stays_open(c, k, x.events, g)


def stays_open(c, k, evs, src):
    """no message, whatever it is, changes which sockets there are or ends the worker"""
    own = {L for L in k.of(PUB) + k.of(SUB)} | set(k.ctx)
    bad = [e for e in writes(list(reach(evs))) if e.loc[0] == THIS and e.val != e.old and ((THIS, e.loc[1]) in own or switches_off(e) and e.cls == PI)]
    c.ob(not bad, 'a message neither ends the work of a link nor takes a socket from it', bad[0] if bad else src)


def limits(c, k):
    """a socket is not told to leave out messages"""
    for x in k.paths:
        for e in zcalls(x.events, ('zmq_setsockopt',)):
            o = unmoved(e.args[1])
            v = (e.d.get('at') or (None,) * 4)[2]
            v = unmoved(v) if v is not None else None
            n = v[1] if v is not None and is_const(v) and isinstance(v[1], int) else None
            if is_const(o) and o[1] in KEEPS_ALL:
                c.ob(n is not None and KEEPS_ALL[o[1]](n), 'a socket of a link is not told to leave out messages', e, 'option %d: %s' % (o[1], n))


# options under which messages get lost, and the values with which they do not
KEEPS_ALL = {54: lambda n: n == 0, 74: lambda n: n == 0, 22: lambda n: n < 0, 7: lambda n: False, 23: lambda n: n == 0 or n >= 1000, 24: lambda n: n == 0 or n >= 1000}


def failed_init(x, e):
    """the path knows that zmq_msg_init... failed"""
    for t, v in x.facts.items():
        if contains(t, lambda y: y == e.res):
            if t[0] == 'eq0' and t[1] == e.res and v is False:
                return True
            if t[0] == 'lt0':
                co, d = to_lin(t[1])
                if set(d) == {e.res}:
                    # (t < 0) is v; what does it say about a result of 0?
                    zero = co < 0
                    if zero != v:
                        return True
    return False


def frame(evs, e):
    """what one send call sends"""
    if e.q in ('zmq_send', 'zmq_send_const'):
        data, n = unmoved(e.args[1]), unmoved(e.args[2])
        if is_const(data) and isinstance(data[1], str):
            return ('text', data[1]) if n == C(len(data[1])) else ('?', show(n))
        p, q = bytes_of(evs, data, 'GetContent'), bytes_of(evs, n, 'GetSize')
        m = message_of(evs, p) if p == q else None
        if m is not None:
            return ('message', m)
        if data[0] == 'addr' or data[0] == 'data':
            return ('?', show(data))
        t = text_of(data)
        if t is not None and n == C(len(t)):
            return ('text', t)
        return ('?', show(data))
    msg = unmoved(e.args[0] if e.q == 'zmq_msg_send' else e.args[1])
    i = [j for j, y in enumerate(evs) if y is e][0]
    inits = [y for y in evs[:i] if y.k == 'call' and y.q.startswith('zmq_msg_init') and unmoved(y.args[0]) == msg]
    fills = [y for y in evs[:i] if y.k == 'call' and y.q in ('memcpy', 'memmove') and is_call(unmoved(y.args[0]), 'zmq_msg_data') and rargs(unmoved(y.args[0]))[0] == msg]
    if not inits or inits[-1].q != 'zmq_msg_init_size' or len(fills) != 1 or evs.index(fills[0]) < evs.index(inits[-1]):
        return ('?', 'message not filled once')
    n0, n1, src = inits[-1].args[1], fills[0].args[2], fills[0].args[1]
    if is_const(unmoved(src)) and isinstance(unmoved(src)[1], str):
        s = unmoved(src)[1]
        return ('text', s) if unmoved(n0) == unmoved(n1) == C(len(s)) else ('?', 'size')
    ps = [bytes_of(evs, src, 'GetContent'), bytes_of(evs, n0, 'GetSize'), bytes_of(evs, n1, 'GetSize')]
    if ps[0] is None or ps[0] != ps[1] or ps[1] != ps[2]:
        return ('?', 'sizes or contents')
    m = message_of(evs, ps[0])
    return ('message', m) if m is not None else ('?', show(ps[0]))


def text_of(t):
    if is_const(t) and isinstance(t[1], str):
        return t[1]
    if t[0] in ('cstr', 'data') and is_const(t[1]):
        return t[1][1]
    return None


def subscriptions(c, k, subs, topics):
    what = 'a receiving socket gets everything that the other end sends'
    c.ob(len(topics) == 1, 'all messages are sent under one topic', k.f, str(sorted(topics)))
    for x in k.paths:
        fl = k.fields(x)
        for S in subs:
            v = fl.get(S)
            if v is None or not is_call(v, 'zmq_socket'):
                continue
            ss = [e for e in x.events if e.k == 'call' and e.q == 'zmq_setsockopt' and unmoved(e.args[0]) == v and unmoved(e.args[1]) == C(SUBSCRIBE)]
            null = fact(x.facts, ('null', v))
            if null is True and not ss:
                continue
            ok = False
            for e in ss:
                t, ln = text_of(unmoved(e.args[2])), unmoved(e.args[3])
                if ln == C(0) or t is not None and is_const(ln) and 0 <= ln[1] <= len(t) and all(y.startswith(t[:ln[1]]) for y in topics):
                    ok = True
            c.ob(ok and len(ss) == 1, what, ss[0] if ss else by_call(x.events, v) or k.f, 'subscribed %d times' % len(ss))


def possible(facts):
    """zmq_msg_init cannot fail"""
    return not any(t[0] == 'eq0' and is_call(t[1], 'zmq_msg_init') and v is False for t, v in facts.items())


def incoming(c, k, subs, me):
    f = c.one(k.cls + '::Run', 0)
    n = 0
    for x in c.run(f, LinkPolicy()):
        c.ob(x.kind == 'return', 'one message does not end the work of a link', x.val.src if x.kind == 'throw' else f, outcome(x))
        out = [e for e in x.events if e.k == 'call' and (e.q in RECVS or e.q == BUS + '::Publish')]
        c.ob(not out, 'a link looks for messages as long as it runs', out[0] if out else f)
        ls = [e for e in loops(x.events) if zcalls([e], RECVS)]
        if not c.ob(len(ls) == 1, 'a link looks for messages as long as it runs', ls[0] if ls else f, '%d loops' % len(ls)):
            continue
        for b in ls[0].bodies:
            if not possible(dict(b['facts'])):
                continue
            n += 1
            c.ob(b['kind'] in ('next', 'n', 'c', 'continue'), 'one message does not end the work of a link', ls[0], b['kind'])
            one_round(c, k, b, subs, me, ls[0])
            stays_open(c, k, b['events'], ls[0])
    c.ob(n > 0, 'a link looks for messages as long as it runs', f)


def unrolled(evs):
    """without the events of the last pass through a loop that follow the loop"""
    inner = {id(e) for l in evs if l.k == 'loop' for b in l.bodies for e in b['events']}
    return [e for e in evs if id(e) not in inner]


def one_round(c, k, b, subs, me, l):
    facts, evs = dict(b['facts']), unrolled(b['events'])
    svals = [sval(S) for S in subs]
    odd = [e for e in zcalls(evs, RECVS) if sock_of_recv(e) not in svals]
    c.ob(not odd, 'messages are only read from the sockets for receiving', odd[0] if odd else l)
    pubs = [e for e in reach(evs) if e.k == 'call' and e.q == BUS + '::Publish']
    published = set()
    for s in svals:
        closed = fact(facts, ('null', s)) is True or any(fact(facts, ('null', sval(t))) is True for t in k.ctx)
        at = [i for i, e in enumerate(evs) if any(sock_of_recv(y) == s for y in zcalls([e], RECVS))]
        if closed:
            c.ob(not at, 'a socket that is not open is not read', evs[at[0]] if at else l)
            continue
        if not c.ob(bool(at), 'every receiving socket is read in every round', l, show(s)):
            continue
        # what is learned between this read and the next
        later = [e for e in evs[at[-1] + 1:] if any(sock_of_recv(y) != s for y in zcalls([e], RECVS))]
        upto = later[0].facts if later else facts
        since = {t: v for t, v in upto.items() if evs[at[0]].facts.get(t) is not v}
        one_read(c, k, evs, since, at, s, me, pubs, published, l)
    rest = [e for e in pubs if id(e) not in published]
    c.ob(not rest, 'only messages that were received are published', rest[0] if rest else l)


def sock_of_recv(e):
    return unmoved(e.args[0 if e.q in ('zmq_recv', 'zmq_recvmsg') else 1])


def part_of(e):
    return unmoved(e.args[0 if e.q == 'zmq_msg_recv' else 1])


def success(facts, e):
    """True/False when the path knows whether the receive call gave a part"""
    for t, v in facts.items():
        if t[0] == 'lt0' and contains(t, lambda y: y == e.res):
            co, d = to_lin(t[1])
            if set(d) != {e.res}:
                continue
            a = d[e.res]
            # a*r + co < 0 is v: try r = 0 and r = -1
            zero, fail = (co < 0) == v, (-a + co < 0) == v
            if zero != fail:
                return zero
        if t[0] in ('eq', 'eq0') and contains(t, lambda y: y == e.res):
            co, d = to_lin(t[1]) if t[0] == 'eq0' else (None, {})
            if d == {e.res: 1} and co == 1:
                return not v
    return None


def appends(evs):
    return [e for e in evs if e.k == 'call' and e.q == RB + '::Append']


def is_part(evs, e, r):
    """the append e adds exactly the part that r received"""
    msg = part_of(r)
    i, j = evs.index(r), evs.index(e)
    d, n = unmoved(e.args[0]), unmoved(e.args[1])
    closed = [y for y in evs[i:j] if y.k == 'call' and y.q in ('zmq_msg_close', 'zmq_msg_init', 'zmq_msg_init_size') and unmoved(y.args[0]) == msg]
    return i < j and not closed and is_call(d, 'zmq_msg_data') and rargs(d)[0] == msg and is_call(n, 'zmq_msg_size') and rargs(n)[0] == msg


WHOLE = 'the parts after the topic are put together, in order and complete'


def one_read(c, k, evs, facts, at, s, me, pubs, published, l):
    first = evs[at[0]]
    segs = evs[at[0]:]
    bufs = set()
    got = None        # was anything received
    inl = [evs[i] for i in at if evs[i].k == 'call']
    lps = [evs[i] for i in at if evs[i].k == 'loop']
    c.ob(len(inl) <= 1 and len(lps) <= 1 and (not inl or not lps or at[0] == evs.index(inl[0])), 'a socket is read once in a round', first)
    if len(inl) > 1 or len(lps) > 1:
        return
    if inl:
        r = inl[0]
        got = success(facts, r)
        nxt = [e for e in evs if e.k == 'call' and e.q == RB + '::Append']
        own = [e for e in nxt if is_call(unmoved(e.args[0]), 'zmq_msg_data') and evs.index(e) > evs.index(r) and (not lps or evs.index(e) < evs.index(lps[0])) and not later_read(evs, r, e)]
        c.ob(not own, 'the topic is no part of the message', own[0] if own else r)
        c.ob(got is not None, 'a part is only used when one was received', r)
        if got and not lps:
            c.ob(more_known(facts) is False, WHOLE, r, 'later parts are not read as long as there are more')
        elif got:
            more = more_guard(c, evs, lps[0], s, facts, True)
            c.ob(more, WHOLE, lps[0] if lps else r, 'later parts are not read as long as there are more')
        elif got is False and lps:
            c.ob(not [e for b in lps[0].bodies for e in zcalls(b['events'], RECVS)], 'nothing is read when no message is there', lps[0])
    if lps:
        lp = lps[0]
        flag = None if inl else first_flag(lp, more_locs(evs, s))
        if not inl:
            c.ob(flag is not None, 'the topic is no part of the message', lp, 'the first part is not told from the others')
            c.ob(more_guard(c, evs, lp, s, facts, False), WHOLE, lp, 'later parts are not read as long as there are more')
            got = True
        for b in lp.bodies:
            bf = dict(b['facts'])
            if not possible(bf) or cannot(lp, bf):
                continue
            rs = zcalls(b['events'], RECVS)
            ap = appends(list(reach(b['events'])))
            if not rs:
                c.ob(not ap, WHOLE, ap[0] if ap else lp, 'a part is used twice')
                continue
            r = rs[0]
            ok = success(bf, r)
            c.ob(len(rs) == 1 and ok is not None, WHOLE, r, '%d reads in one step' % len(rs))
            if not ok:
                c.ob(not ap, 'a part is only used when one was received', ap[0] if ap else r)
                continue
            skip = flag is not None and flag[1](bf) is True
            if flag is not None and flag[1](bf) is None:
                c.ob(False, 'the topic is no part of the message', r, 'the first part is not told from the others')
            if skip:
                c.ob(not ap, 'the topic is no part of the message', ap[0] if ap else r)
                c.ob(flag[2](b), WHOLE, r, 'more than the topic is left out')
                continue
            if flag is not None:
                c.ob(flag[3](b), WHOLE, r, 'a later part is left out')
            good = len(ap) == 1 and is_part(b['events'], ap[0], r) if ap and ap[0] in b['events'] else False
            c.ob(good, WHOLE, ap[0] if ap else r, '%d times in the message' % len(ap))
            bufs |= {recv_ptr(e) for e in ap}
    ends = [i for i, e in enumerate(evs) if i > at[-1] and any(sock_of_recv(y) != s for y in zcalls([e], RECVS))]
    tail = evs[at[-1] + 1:ends[0] if ends else None]
    des = [e for e in tail if e.k == 'call' and e.q == MSG + '::Deserialize']
    mine = [e for e in tail if e.k == 'call' and e.q == BUS + '::Publish']
    once = 'every message that is received is published once on the bus of the link'
    for e in mine:
        published.add(id(e))
    inner = [e for y in tail if y.k == 'loop' for e in reach([y]) if e.k == 'call' and e.q == BUS + '::Publish']
    c.ob(not inner, once, inner[0] if inner else first, 'in a loop')
    if got is False:
        # nothing arrived: what is deserialized then is an empty buffer, and the buffer is tested
        c.ob(not mine or des and tested(evs, facts, des[0]), 'nothing is published when no message is there', mine[0] if mine else first)
        return
    if not des:
        c.ob(not mine and empty_buffer(evs, facts, bufs), once, first, 'a message that was received is not read')
        return
    d = des[0]
    src = strip_own(unmoved(d.args[-1]))
    fresh = [e for e in evs[:at[0]] if e.k == 'new' and src == ('addr', (e.root, ()))] if src[0] == 'addr' else []
    c.ob(len(des) == 1, once, d, 'read %d times' % len(des))
    c.ob(bool(fresh) and (not bufs or bufs == {src}), 'a message is read from its own parts only', d, show(src)[:80])
    failed = [e for e in tail if e.k == 'catch' and tail.index(e) > tail.index(d)]
    if failed:
        c.ob(not mine, 'a message that cannot be read is dropped', mine[0] if mine else d)
        return
    if c.ob(len(mine) == 1, once, mine[-1] if mine else d, 'published %d times' % len(mine)):
        p = mine[0]
        m = unmoved(p.args[0])
        c.ob(same_message(m, d.res, ('mSender',)), 'topic and data are published unchanged', p, show(m)[:100])
        c.ob(plain_text(evs, select(m, 'mSender')) == cat(cat(me, C('/')), select(d.res, 'mSender')), 'a message that was received bears the identifier of the link', p, show(select(m, 'mSender'))[:100])
        c.ob(len(p.args) == 1 and p.rloc is not None and p.rloc[1] == () and own_bus(p.rloc[0]), once, p, 'published on %s' % show(p.recv)[:60])


def own_bus(root):
    if root[0] != 'deref':
        return False
    t = strip_own(unmoved(root[1]))
    while t[0] == 'fld':
        t = t[1]
    return t == ('init', THIS)


def later_read(evs, r, e):
    return any(y.k == 'call' and y.q in RECVS for y in evs[evs.index(r) + 1:evs.index(e)])


def size_fact(evs, facts, ptrs):
    """what the path knows about the size of one of the buffers: True = it holds something"""
    for t, v in facts.items():
        if t[0] not in ('eq0', 'lt0'):
            continue
        co, d = to_lin(t[1])
        if len(d) != 1:
            continue
        (r, a), = d.items()
        e = by_call(evs, r)
        if e is None or e.q != RB + '::GetSize' or recv_ptr(e) not in ptrs:
            continue
        if t[0] == 'eq0' and co == 0:
            return not v
        if t[0] == 'lt0':
            zero, one = (co < 0) == v, (a + co < 0) == v
            if zero != one:
                return one
    return None


def tested(evs, facts, d):
    return size_fact(evs, facts, {strip_own(unmoved(d.args[-1]))}) is True


def empty_buffer(evs, facts, bufs):
    return size_fact(evs, facts, bufs or {('addr', (e.root, ())) for e in evs if e.k == 'new'}) is False


def more_term(t, flags):
    """a value that tells whether the socket has more parts: straight from zmq"""
    t = unmoved(t)
    return t[0] == 'out' and t[1] == 'zmq_getsockopt' or is_call(t, 'zmq_msg_more')


def truth(t, v, var):
    """what the fact (t is v) says about var being not 0"""
    if t == ('b', var):
        return v
    if t[0] in ('eq0', 'lt0'):
        co, d = to_lin(t[1])
        if set(d) != {var}:
            return None
        z, o = ((co == 0), (co + d[var] == 0)) if t[0] == 'eq0' else ((co < 0), (co + d[var] < 0))
        z, o = z == v, o == v
        if z != o:
            return o
    return None


def vars_of(t):
    return set(to_lin(t[1])[1]) if t[0] in ('eq0', 'lt0') else {t[1]} if t[0] == 'b' else set()


def more_known(facts):
    r = None
    for t, v in facts.items():
        for x in vars_of(t):
            if more_term(x, None):
                k = truth(t, v, x)
                if k is not None:
                    r = k
    return r


def more_locs(evs, s):
    """locations that get the more-parts option of this socket, and only that"""
    r, bad = set(), set()
    for e in zcalls(evs, ('zmq_getsockopt',)):
        p = unmoved(e.args[2])
        if p[0] == 'addr':
            (r if unmoved(e.args[0]) == s and unmoved(e.args[1]) == C(RCVMORE) else bad).add(p[1])
    return r - bad


def says_more(v, loc, facts, locs):
    """v tells whether there are more parts"""
    v = unmoved(v)
    if v[0] == 'out' and v[1] == 'zmq_getsockopt':
        return loc in locs
    if is_call(v, 'zmq_msg_more'):
        return True
    if is_const(v):
        return more_known(facts) is not None and bool(v[1]) == more_known(facts)
    return False


def more_guard(c, evs, lp, s, facts, inl):
    """the loop goes on exactly while the socket has more parts of the message"""
    locs = more_locs(evs, s)
    var = None
    if lp.guard and not all(len(g) == 0 for g in lp.guard):
        both = [a for a in lp.guard[0] if all(a in g for g in lp.guard)]
        asked = [(t, v) for t, v in both if any(x[0] == 'lv' and x[1] == lp.id for x in vars_of(t))]
        # what else is asked at the start of a round is whether a part arrived, and whether there are more after it
        if len(asked) != 1 or not all(a in asked or contains(a[0], lambda y: y[0] == 'res' and y[1] in RECVS) or any(more_term(y, None) for y in vars_of(a[0])) for g in lp.guard for a in g):
            return False
        t, v = asked[0]
        vs = vars_of(t)
        if len(vs) != 1:
            return False
        (x,) = vs
        if x[0] != 'lv' or x[1] != lp.id or truth(t, v, x) is not True:
            return False
        var = x[2]
        pre = lp.pre.get(var, NULL)
        if not (says_more(pre, var, facts, locs) if inl else is_const(pre) and bool(pre[1])):
            return False
    elif inl and more_known(facts) is not True:
        return False
    for b in lp.bodies:
        bf = dict(b['facts'])
        if not possible(bf):
            continue
        rs = zcalls(b['events'], RECVS)
        if not rs or success(bf, rs[0]) is not True:
            if b['kind'] == 'next' and var is None:
                return False
            continue
        mine = {t: v for t, v in bf.items()}
        if b['kind'] == 'next':
            if var is not None:
                if not says_more(b['upd'].get(var, NULL), var, mine, locs):
                    return False
            elif more_known(mine) is not True:
                return False
        elif more_known(mine) is not False:
            return False
    return True


def cannot(lp, facts):
    """a counter that only grows contradicts the facts"""
    for loc, pre in lp.pre.items():
        lv = ('lv', lp.id, loc)
        if not is_const(pre):
            continue
        ups = [b['upd'].get(loc, lv) for b in lp.bodies if b['kind'] == 'next']
        if type(pre[1]) is bool:
            if all(u in (lv, pre) for u in ups) and facts.get(('b', lv), pre[1]) != pre[1]:
                return True
            continue
        if type(pre[1]) is not int or not all(u == lv or sub(u, lv)[0] == 'c' and sub(u, lv)[1] >= 0 for u in ups):
            continue
        for t, v in facts.items():
            if t[0] in ('eq0', 'lt0') and vars_of(t) == {lv}:
                co, d = to_lin(t[1])
                a = d[lv]
                lo = co + a * pre[1]
                # values lo, lo + a, ...
                if t[0] == 'lt0' and (v and a > 0 and lo >= 0 or not v and a < 0 and lo < 0):
                    return True
                if t[0] == 'eq0' and v and (a > 0 and lo > 0 or a < 0 and lo < 0):
                    return True
    return False


def first_flag(lp, but):
    """a local that tells the first pass of the loop from the later ones: (loc, first?(facts), body makes it later, body keeps it later)"""
    for loc, pre in lp.pre.items():
        if loc[0] == THIS or loc in but or not is_const(pre):
            continue
        lv = ('lv', lp.id, loc)
        if isinstance(pre[1], bool):
            f0 = pre[1]

            def first(bf, lv=lv, f0=f0):
                v = bf.get(('b', lv))
                return None if v is None else v == f0

            def leaves(b, loc=loc, f0=f0):
                return b['upd'].get(loc) == C(not f0)

            def keeps(b, loc=loc, f0=f0, lv=lv):
                return b['upd'].get(loc, lv) in (lv, C(not f0))
        else:
            def first(bf, lv=lv, pre=pre):
                for t, v in bf.items():
                    if t[0] in ('eq0', 'lt0') and set(to_lin(t[1])[1]) == {lv}:
                        co, d = to_lin(t[1])
                        z = co + d[lv] * pre[1]
                        return ((z == 0) if t[0] == 'eq0' else (z < 0)) == v
                return None

            def leaves(b, loc=loc, lv=lv):
                return b['upd'].get(loc) == add(lv, C(1))
            keeps = leaves
        if any(first(dict(b['facts'])) is not None for b in lp.bodies):
            return (loc, first, leaves, keeps)
    return None


# ------------------------------------------------------------------- C24
CLOSE, TERM = ('zmq_close',), ('zmq_ctx_term', 'zmq_ctx_destroy', 'zmq_term')


def c24(c):
    k = Link(c)
    kept = 'every socket that is opened is kept until it is closed'
    for x in k.paths:
        fl = k.fields(x)
        for e in zcalls(x.events, ('zmq_socket', 'zmq_ctx_new', 'zmq_init')):
            if e not in x.events:
                c.ob(False, kept, e, 'opened in a loop')
                continue
            shut = [y for y in x.events if y.k == 'call' and y.q in CLOSE + TERM and unmoved(y.args[0]) == e.res]
            n = sum(1 for v in fl.values() if v == e.res)
            if e.q == 'zmq_socket':
                made = [y for y in x.events[:x.events.index(e)] if y.k == 'call' and y.q in ('zmq_ctx_new', 'zmq_init') and y.res == unmoved(e.args[0])]
                c.ob(bool(made), 'every socket is opened from the context of the link', e, show(e.args[0])[:80])
            c.ob(fact(x.facts, ('null', e.res)) is True or n == (0 if shut else 1), kept, e, 'kept in %d places' % n)
        if any(e.k == 'call' and base_name(e.q) == 'SetMessageCallback' for e in x.events):
            i = [j for j, e in enumerate(x.events) if e.k == 'call' and base_name(e.q) == 'SetMessageCallback'][0]
            late = [e for e in x.events[i:] if e.k == 'acc' and e.rw == 'w' and e.loc in k.sockets]
            late += [e for e in zcalls(x.events[i:], ('zmq_bind', 'zmq_connect', 'zmq_setsockopt')) if any(sock_arg(e) == fl.get(S) for S in k.of(PUB))]
            c.ob(not late, 'messages are only sent when the sockets are set up', late[0] if late else x.events[i])
    users(c, k)
    f = c.one(k.cls + '::Deinitialize', 0)
    subs = {(e.loc) for x in k.paths for e in x.events if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS and e.val is not None and is_call(strip_own(unmoved(e.val)), BUS + '::CreateSubscriber')}
    n = 0
    for x in c.run(f, LinkPolicy()):
        c.ob(x.kind == 'return', 'closing a link does not fail', x.val.src if x.kind == 'throw' else f, outcome(x))
        n += 1
        nothing = [fact(x.facts, ('null', sval(t))) for t in k.ctx]
        inl = [e for e in loops(x.events) if zcalls([e], CLOSE + TERM)]
        c.ob(not inl, 'every socket and the context is closed once', inl[0] if inl else f, 'in a loop')
        closes = [e for e in x.events if e.k == 'call' and e.q in CLOSE]
        terms = [e for e in x.events if e.k == 'call' and e.q in TERM]
        un = [i for i, e in enumerate(x.events) if e.k == 'call' and base_name(e.q) == 'DeleteSubscriber' and any(strip_own(unmoved(e.args[0])) == sval(s) for s in subs)]
        for S in k.sockets:
            s, mine = sval(S), [e for e in closes if unmoved(e.args[0]) == sval(S)]
            null = fact(x.facts, ('null', s))
            if null is True or True in nothing:
                c.ob(len(mine) <= 1, 'every socket and the context is closed once', mine[-1] if mine else f)
                continue
            c.ob(len(mine) == 1, 'every socket and the context is closed once', mine[-1] if mine else (terms[0] if terms else f), '%s is closed %d times' % (show_loc(S), len(mine)))
            for e in mine:
                i = x.events.index(e)
                c.ob(bool(un) and un[0] < i, 'no message is sent through a socket that is being closed', e, 'the link still listens')
                use = [y for y in zcalls(x.events[i + 1:]) if any(unmoved(a) == s for a in y.args if isinstance(a, tuple))]
                c.ob(not use, 'a closed socket is not used', use[0] if use else e)
        for T in k.ctx:
            t, mine = sval(T), [e for e in terms if unmoved(e.args[0]) == sval(T)]
            null = fact(x.facts, ('null', t))
            c.ob(len(mine) == (0 if null is True else 1) or null is None and len(mine) == 1, 'every socket and the context is closed once', mine[-1] if mine else f, 'the context is closed %d times' % len(mine))
            for e in mine:
                late = [y for y in closes if x.events.index(y) > x.events.index(e)]
                c.ob(not late, 'the context is closed after all its sockets', e)
    c.ob(n > 0 and bool(k.sockets) and bool(k.ctx), 'a link can be closed', f)


def users(c, k):
    """a socket is used by one thread, or under a mutex"""
    use = {S: {} for S in k.sockets}
    fns = {unmoved(a)[1]: unmoved(a) for x in k.paths for e in x.events if e.k == 'call' and base_name(e.q) == 'SetMessageCallback' for a in e.args if unmoved(a)[0] == 'lambda'}
    runs = [('the receiver of messages of the bus', c.run(c.prog.funcs[l[1]], LinkPolicy(), caps=l[2])) for l in fns.values()]
    runs.append(('the worker', c.run(c.one(k.cls + '::Run', 0), LinkPolicy())))
    for who, ps in runs:
        for x in ps:
            for e in zcalls(x.events):
                for S in k.sockets:
                    if any(isinstance(a, tuple) and unmoved(a) == sval(S) for a in e.args):
                        use[S].setdefault(who, []).append(e)
    for S, by in use.items():
        c.ob(bool(by), 'every socket is used', k.f, show_loc(S))
        if len(by) > 1:
            es = [e for v in by.values() for e in v]
            common = set(es[0].held)
            for e in es:
                common &= set(e.held)
            c.ob(bool(common), 'no socket is used by two threads at the same time', es[0], '%s: %s' % (show_loc(S), ', '.join(by)))


# ------------------------------------------------------------------- C26
ROLES = {'server-role': ('zmq_bind', 'interface'), 'client-role': ('zmq_connect', 'server-host')}


def dget(t):
    """(type, key, default) of a value read from the configuration"""
    t = unmoved(t)
    if t[0] == 'dget' and len(t[3]) == 2 and is_const(t[3][0]):
        return (t[1], t[3][0][1], t[3][1][1] if is_const(t[3][1]) else None)
    return None


def config_term(c):
    f = c.prog.fn('lp::PluginInstance::GetCustomConfiguration')
    if len(f) != 1:
        raise AnalysisError('configuration of an instance')
    ps = c.run(f[0], LinkPolicy())
    v = ps[0].val
    return path_get(('init', v.loc[0]), v.loc[1]) if isinstance(v, L) else v


def c26(c):
    k = Link(c)
    used, n = {}, 0
    for x in k.paths:
        c.ob(x.kind == 'return', 'a link can be initialized', x.val.src if x.kind == 'throw' else k.f, outcome(x))
        fl = k.fields(x)
        on = {}
        for t, v in x.facts.items():
            d = dget(t[1]) if t[0] == 'b' else None
            if d and d[1].endswith('/enabled'):
                c.ob(d[0] == 'bool' and d[2] is False, 'a role is only taken when it is enabled', k.f, str(d))
                on[d[1].rsplit('/', 1)[0]] = v
        noctx = any(fact(x.facts, ('null', fl.get(t, NULL))) is True for t in k.ctx)
        made = [e for e in x.events if e.k == 'call' and e.q == 'zmq_socket']
        c.ob(len(zcalls(x.events, ('zmq_socket',))) == len(made), 'an enabled role opens one socket to send and one to receive', k.f, 'in a loop')
        ends = [e for e in zcalls(x.events, ('zmq_bind', 'zmq_connect'))]
        seen = {}
        for e in ends:
            n += 1
            r = endpoint(c, x, e, on, used)
            m = [y for y in made if y.res == unmoved(e.args[0])]
            ty = unmoved(m[0].args[1]) if m else NULL
            if c.ob(bool(m) and is_const(ty), 'an endpoint belongs to a socket of the link', e) and r:
                role, way = r
                c.ob((ty[1] == PUB) == (way == 'pub') and ty[1] in (PUB, SUB), 'the port for sending is used for sending, the other for receiving', e, 'port-%s for a socket of type %s' % (way, ty[1]))
                seen.setdefault(role, []).append(way)
        for role in ROLES:
            v = on.get(role)
            want = ['pub', 'sub'] if v else []
            got = sorted(seen.get(role, []))
            nulls = [y for y in made if fact(x.facts, ('null', y.res)) is True]
            ok = v is not None and got == want or v and (noctx or nulls) and set(got) <= set(want) and len(set(got)) == len(got)
            c.ob(ok, 'an enabled role opens one socket to send and one to receive, another none', ends[0] if ends else k.f, '%s %s: %s' % (role, v, got))
        exp = 2 * sum(1 for r in ROLES if on.get(r))
        c.ob(len(made) == exp or noctx and len(made) <= exp, 'an enabled role opens one socket to send and one to receive, another none', made[-1] if made else k.f, '%d sockets' % len(made))
    c.ob(n > 0, 'a link opens endpoints', k.f)
    d = {key: v for key, (ty, v) in used.items()}
    for a, b in (('server-role/port-pub', 'client-role/port-sub'), ('server-role/port-sub', 'client-role/port-pub')):
        c.ob(d.get(a) is not None and d.get(a) == d.get(b), 'client and server agree without configuration', k.f, '%s: %s, %s: %s' % (a, d.get(a), b, d.get(b)))
    c.ob(d.get('server-role/port-pub') != d.get('server-role/port-sub'), 'the ports differ', k.f)
    configs(c, k, dict(used))


def endpoint(c, x, e, on, used):
    """(role, 'pub'/'sub') an endpoint is configured for"""
    t = unmoved(e.args[1])
    while t[0] in ('cstr', 'data'):
        t = unmoved(t[1])
    what = 'an endpoint is the configured host and port of its role'
    parts = t[1] if t[0] == 'cat' else ()
    ok = len(parts) == 4 and parts[0] == C('tcp://') and parts[2] == C(':') and parts[3][0] == 'tostr'
    h, p = (dget(parts[1]), dget(parts[3][1])) if ok else (None, None)
    if not c.ob(ok and h and p, what, e, show(t)[:160]):
        return None
    role = p[1].rsplit('/', 1)[0]
    way = p[1].rsplit('/', 1)[1]
    good = role in ROLES and h[1] == role + '/' + ROLES[role][1] and way in ('port-pub', 'port-sub') and on.get(role) is True and e.q == ROLES[role][0]
    good = good and isinstance(h[2], str) and h[2] != '' and type(p[2]) is int and 0 < p[2] < 65536 and p[0] == 'int'
    if not c.ob(good, what, e, '%s %s %s' % (e.q, h, p)):
        return None
    for ty, key, dv in (h, p):
        old = used.setdefault(key, ('int' if ty == 'int' else 'str', dv))
        c.ob(old[1] == dv, what, e, 'two defaults for ' + key)
    return role, way[5:]


def configs(c, k, used):
    """the configuration files that come with it are understood, and fit together"""
    used = dict(used)
    for r in ROLES:
        used[r + '/enabled'] = ('bool', False)
    d = os.path.join(REPO, 'config')
    roles = {}
    for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not fn.endswith('.cfg'):
            continue
        try:
            with open(os.path.join(d, fn)) as f:
                doc = json.load(f)
        except ValueError:
            continue
        for p in doc.get('plugins', []):
            if p.get('type') != k.cls.split('::')[-1]:
                continue
            for role, kv in (p.get('configuration') or {}).items():
                for key, v in kv.items():
                    ty = used.get(role + '/' + key)
                    fits = ty is not None and {'bool': bool, 'int': int, 'str': str}[ty[0]] is type(v)
                    c.ob(fits, 'the configuration files are understood', (os.path.join(d, fn), 1, '?'), '%s/%s' % (role, key))
                roles[role] = {n: kv.get(n, used.get(role + '/' + n, (0, None))[1]) for n in ('port-pub', 'port-sub')}
    if set(roles) == set(ROLES):
        s, cl = roles['server-role'], roles['client-role']
        c.ob(s['port-pub'] == cl['port-sub'] and s['port-sub'] == cl['port-pub'], 'the configuration files fit together', k.f, '%s %s' % (s, cl))


# ------------------------------------------------------------------- C34
class InfoPolicy(LinkPolicy):
    def throws(self, ev):
        if ev.q.startswith('lp::messages::Datagram::') and ev.d.get('conv'):
            return [('lp::exceptions::InvalidOperationException', ('lp::exceptions::Exception', 'std::runtime_error', 'std::exception'))]
        return Policy.throws(self, ev)


def c34(c):
    """the plugin that answers requests: it reports when told to, and answers each request once"""
    fs = [f for f in c.prog.funcs.values() if base_name(f['q']) == 'Initialize' and '/src/plugins/' in f['file'] and any(g['q'] == BUS + '::CreateActionProvider' for g in calls_deep(c, f))]
    if len(fs) != 1:
        raise AnalysisError('%d plugins answer requests' % len(fs))
    (f,), P = fs, InfoPolicy()
    cls = f['q'].rsplit('::', 1)[0]
    told, offers, hears = set(), {}, {}
    pubs = set()
    for x in c.run(f, P):
        c.ob(x.kind == 'return', 'the plugin can be initialized', x.val.src if x.kind == 'throw' else f, outcome(x))
        made = {n: [e for e in reach(x.events) if e.k == 'call' and e.q == BUS + '::Create' + n] for n in ('Publisher', 'Subscriber', 'ActionProvider')}
        t = x.store.get(THIS)
        fl = {}

        def go(t, path):
            if t[0] == 'rec':
                for n, v in t[2]:
                    fl[(THIS, path + (n,))] = unmoved(v)
                    go(v, path + (n,))
        if t is not None:
            go(t, ())
        ps = [e for e in made['Publisher'] if rstr(e.args) == ['/sysinfo'] and e in x.events]
        c.ob(len(ps) == 1 and len(made['Publisher']) == 1, 'the plugin publishes on /sysinfo', made['Publisher'][0] if made['Publisher'] else f)
        for e in ps:
            at = {k for k, v in fl.items() if strip_own(v) == strip_own(e.res)}
            if c.ob(bool(at), 'the publisher is kept', e):
                pubs |= at
        for k, v in fl.items():
            d = dget(v)
            if d and d[1] == 'send-datagram':
                told.add(k)
                c.ob(d[0] == 'bool' and d[2] is False, 'nothing is published unless it is configured', f, str(d))
        ap = [e for e in made['ActionProvider'] if rstr(e.args[:1]) == ['/sysinfoaction'] and e in x.events]
        if c.ob(len(ap) == 1 and len(made['ActionProvider']) == 1, 'requests on /sysinfoaction are answered', made['ActionProvider'][0] if made['ActionProvider'] else f):
            lam = [unmoved(a) for a in ap[0].args if unmoved(a)[0] == 'lambda']
            if c.ob(len(lam) == 1, 'requests on /sysinfoaction are answered', ap[0]):
                offers[lam[0][1]] = lam[0]
        for e in made['Subscriber']:
            for a in e.args:
                if unmoved(a)[0] == 'lambda':
                    hears[unmoved(a)[1]] = unmoved(a)
    for lam in offers.values():
        g = c.prog.funcs[lam[1]]
        for x in c.run(g, P, caps=lam[2]):
            c.ob(x.kind == 'return', 'answering a request does not fail', x.val.src if x.kind == 'throw' else g, outcome(x))
            rs = [e for e in reach(x.events) if e.k == 'call' and e.q == 'lp::bus::ActionProvider::Respond']
            once = 'every request is answered once'
            if c.ob(len(rs) == 1 and rs[0] in x.events, once, rs[-1] if rs else g, '%d answers' % len(rs)):
                who = recv_ptr(rs[0])
                c.ob(who is not None and strip_own(who) == ('p', 0), once, rs[0], 'through ' + show(who)[:80])
                c.ob(unmoved(rs[0].args[0]) == ('p', 1), 'the answer names the request it answers', rs[0], show(rs[0].args[0])[:80])
    for lam in hears.values():
        g = c.prog.funcs[lam[1]]
        for x in c.run(g, P, caps=lam[2]):
            c.ob(x.kind == 'return', 'whatever is received, the plugin does not fail', x.val.src if x.kind == 'throw' else g, outcome(x))
    rounds(c, cls, P, pubs, told)


def rounds(c, cls, P, pubs, told):
    f = c.one(cls + '::Run', 0)
    mine = {strip_own(path_get(('init', k[0]), k[1])) for k in pubs}
    flags = {path_get(('init', k[0]), k[1]) for k in told}
    n = 0

    def pubcalls(evs):
        return [e for e in reach(evs) if e.k == 'call' and e.q in ('lp::bus::Publisher::Publish', BUS + '::Publish')]

    def asked(facts):
        r = None
        for t, v in facts:
            if t[0] == 'b' and (t[1] in flags or (dget(t[1]) or ('', '', None)) == ('bool', 'send-datagram', False)):
                r = v
        return r
    what = 'in every round one datagram is published if it is configured, and none otherwise'
    for x in c.run(f, P):
        c.ob(x.kind == 'return', 'no round fails', x.val.src if x.kind == 'throw' else f, outcome(x))
        out = [e for e in x.events if e.k == 'call' and e in pubcalls([e])]
        c.ob(not out, what, out[0] if out else f, 'outside of the rounds')
        for lp in loops(x.events):
            if lp not in x.events:
                continue
            for b in lp.bodies:
                if b['kind'] != 'next':
                    c.ob(not pubcalls(b['events']) or b['kind'] == 'break', what, lp)
                    continue
                n += 1
                on = asked(list(b['facts']) + list(lp.facts.items()))
                es = pubcalls(b['events'])
                if not es and any(t[0] == 'null' and v and strip_own(t[1]) in mine for t, v in b['facts']):
                    continue
                if on is None:
                    c.ob(False, what, es[0] if es else lp, 'not asked whether it is configured')
                    continue
                c.ob(len(es) == (1 if on else 0) and all(e in b['events'] for e in es), what, es[-1] if es else lp, '%d published, configured: %s' % (len(es), on))
                for e in es:
                    p = recv_ptr(e)
                    c.ob(e.q == 'lp::bus::Publisher::Publish' and p is not None and strip_own(p) in mine, what, e, 'through ' + show(p)[:80] if p else '')
    c.ob(n > 0, what, f, 'no rounds')
    d = os.path.join(REPO, 'config')
    for fn in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        try:
            with open(os.path.join(d, fn)) as h:
                doc = json.load(h) if fn.endswith('.cfg') else {}
        except ValueError:
            continue
        for p in doc.get('plugins', []):
            if p.get('type') == cls.split('::')[-1]:
                bad = [k for k, v in (p.get('configuration') or {}).items() if k != 'send-datagram' or type(v) is not bool]
                c.ob(not bad, 'the configuration files are understood', (os.path.join(d, fn), 1, '?'), str(bad))
