"""Rules about the host process: signals and shutdown, log lines, errors."""
from .plug import *
from .bus import BusModel, BUS

LP = 'lp::LampPost'
LOG = 'lp::log::Log'
EXC = 'lp::exceptions::'
SIGS = {2: 'SIGINT', 15: 'SIGTERM'}
HOOKS = ('sigaction', 'signal', 'std::signal', 'bsd_signal', 'sysv_signal', '__sysv_signal')


class SigPolicy(Policy):
    opaque_default = ()


class MainPolicy(Policy):
    opaque_default = ('lp::log::', LP + '::', PM + '::')


class EndPolicy(Policy):
    opaque = (BUS + '::', PM + '::', 'lp::messages::', 'lp::settings::')
    reads = True


def callees(f):
    for n in walk(f):
        g = n.get('f')
        if isinstance(g, dict) and g.get('q'):
            yield n, g


def in_src(c, f):
    r = c.prog.rel(f['file'])
    return (r.startswith('src/') or r.startswith('include/')) and 'generated' not in r and '/windows/' not in r


# ------------------------------------------------------------------- C27
# what a signal handler may do: lock-free atomics, looking at pointers, and the functions POSIX lists
ATOMIC_OPS = ('load', 'store', 'exchange', 'operator=', 'fetch_or', 'fetch_and', 'fetch_add', 'fetch_sub', 'compare_exchange_strong', 'compare_exchange_weak',
              'is_lock_free', 'test_and_set', 'clear', 'test', 'operator++', 'operator--', 'operator|=', 'operator&=', 'operator+=', 'operator-=')
PTR_CLS = ('std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::unique_ptr', 'std::weak_ptr', 'std::__weak_ptr', 'std::shared_ptr<', 'std::unique_ptr<', 'std::__shared_ptr<')
SAFE_FREE = ('std::move', 'std::forward', 'std::operator!=', 'std::operator==', 'std::addressof', 'std::as_const', 'std::get',
             'std::atomic_store', 'std::atomic_load', 'std::atomic_signal_fence', 'std::atomic_thread_fence',
             '_exit', '_Exit', 'abort', 'write', 'raise', 'kill', 'getpid', 'sigaction', 'signal', 'std::signal', 'sem_post', 'sigemptyset', 'sigfillset', 'sigaddset',
             'sigdelset', 'sigprocmask', 'time', 'alarm', 'close', 'read', 'fsync', 'pthread_kill', 'pthread_self', '__errno_location')


def unsafe_call(n, g):
    """None if a signal handler may make this call"""
    q, cls = g['q'], g.get('cls', '') or ''
    nm = base_name(q)
    if n['k'] == 'ctor' and '(lambda at' in q:
        return None
    if cls.startswith(('std::atomic', 'std::__atomic')):
        return None if nm in ATOMIC_OPS or nm.startswith('operator ') or g.get('isctor') else q
    if any(cls.startswith(p.rstrip('<')) for p in PTR_CLS):
        if nm in ('operator->', 'operator*', 'operator bool', 'get', 'operator!=', 'operator==', 'use_count', 'expired', 'lock', '_M_get', 'operator=') or n['k'] == 'ctor':
            return None
        return q
    if cls == '' and (q in SAFE_FREE or any(q.startswith(s + '<') for s in SAFE_FREE)):
        return None
    return q


def reaches(c, f, seen):
    """(function, node, callee) of every call a run of f may make; calls into the repository are followed"""
    if f['id'] in seen:
        return
    seen.add(f['id'])
    for n, g in callees(f):
        h = c.prog.funcs.get(g.get('id'))
        if h is not None:
            ids = [h['id']] + (c.prog.all_overriders(h['id']) if h.get('virt') or g.get('virt') else [])
            for i in ids:
                yield from reaches(c, c.prog.funcs[i], seen)
        else:
            yield f, n, g


def hooked(e):
    """{signal: handler term} this call installs"""
    if not (e.k == 'call' and e.q in HOOKS) or not e.args:
        return None
    s = unmoved(e.args[0])
    if e.q == 'sigaction':
        t = (e.at or (None, None))[1]
        if t is None:
            return None
        hs = []
        for name in ('sa_handler', 'sa_sigaction'):
            for pre in ((), ('__sigaction_handler',)):
                v = path_get(t, pre + (name,))
                if v[0] == 'func':
                    hs.append(v)
        fl = path_get(t, ('sa_flags',))
        return s, hs[0] if hs else None, fl
    return s, unmoved(e.args[1]), C(0)


def const_signals(x, s):
    if is_const(s):
        return {s[1]}
    return set()


def c27(c):
    m = BusModel(c)
    fm = c.any('main')
    if not c.ob(len(fm) == 1 and len(m.flags) > 0, 'the program and the flag that keeps the bus running are found', fm[0]):
        return
    main_f = fm[0]
    handlers = {}
    n = 0
    for x in c.run(main_f, MainPolicy()):
        evs = list(reach(x.events))
        starts = [i for i, e in enumerate(evs) if e.k == 'call' and e.q == LP + '::Start']
        if not starts:
            continue
        n += 1
        got = {}
        for e in unroll_consts(evs[:starts[0]], x):
            h = hooked(e[0])
            if h is None:
                continue
            for s in e[1]:
                got[s] = (h[1], h[2], e[0])
        for s, name in SIGS.items():
            ok = s in got and got[s][0] is not None and got[s][0][0] == 'func' and got[s][0][1] in c.prog.funcs
            if c.ob(ok, 'termination and interrupt signals are handled before the host starts', got[s][2] if s in got else evs[starts[0]], name):
                handlers.setdefault(s, {})[got[s][0][1]] = evs[starts[0]]
                fl = got[s][1]
                c.ob(is_const(fl) and isinstance(fl[1], int) and not fl[1] & 0x80000000 & 0xffffffff, 'a handler stays installed', got[s][2], show(fl)[:60])
        st = evs[starts[0]]
        gl = [k for k, v in x.store.items() if k[0] == 'glob' and v is not None and strip_own(unmoved(v)) == recv_addr(st)]
        c.ob(bool(gl), 'the host that is started is the one signals stop', st)
    c.ob(n > 0, 'the program starts the host', main_f)
    if not c.ob(set(handlers) == set(SIGS), 'termination and interrupt signals are handled before the host starts', main_f):
        return
    busf = set()
    for s, hs in handlers.items():
        for h in hs:
            f = c.prog.funcs[h]
            stopped = 0
            args = [C(s)] + [('p', i) for i in range(1, len(f['params']))]
            for x in c.run(f, SigPolicy(), args=args):
                c.ob(x.kind == 'return', 'a signal handler returns', x.val.src if x.kind == 'throw' else f)
                for e in flatten(x.events):
                    if e.k in ('lock', 'wait', 'new', 'delete', 'throw', 'stream', 'fcall') or e.k == 'call' and unsafe_ev(e):
                        c.ob(False, 'a signal handler only does what is allowed in one', e, '%s %s' % (e.k, e.q or ''))
                ws = [e for e in writes(list(flatten(x.events))) if switches_off(e) and (THIS, e.loc[1][-1:]) in m.flags]
                off = [a for a, v in x.facts.items() if a[0] == 'null' and v]
                if ws:
                    stopped += 1
                    for e in ws:
                        busf.add(bus_of(e.loc))
                else:
                    c.ob(bool(off), 'a signal stops the root bus', f, '%s ignored' % SIGS[s])
            c.ob(stopped > 0, 'a signal stops the root bus', f, SIGS[s])
            seen = set()
            k = 0
            for g, nd, cal in reaches(c, f, seen):
                k += 1
                bad = unsafe_call(nd, cal)
                c.ob(bad is None, 'a signal handler only does what is allowed in one', (g['file'], nd.get('l'), g['q']), 'calls %s' % (bad or ''))
            for i in seen:
                g = c.prog.funcs[i]
                c.funcs.add(i)
                for nd in walk(g):
                    if nd.get('k') == 'lambda' and all(k.get('byref') or k.get('this') for k in nd['caps']):
                        continue   # no more than references
                    c.ob(nd.get('k') not in ('new', 'delete', 'throw', 'lambda'), 'a signal handler only does what is allowed in one', (g['file'], nd.get('l'), g['q']), nd.get('k'))
    stop_fields(c, m, busf)
    shutdown(c)


class QuietPolicy(EndPolicy):
    quiet_atomics = True


def recv_addr(e):
    if e.rloc is not None and e.rloc[1] == () and e.rloc[0][0] == 'deref':
        return strip_own(unmoved(e.rloc[0][1]))
    return ('addr', e.rloc) if e.rloc is not None else None


def unsafe_ev(e):
    g = {'q': e.q, 'cls': e.cls or ''}
    return unsafe_call({'k': 'ctor' if e.ctor else 'call'}, g) is not None


def bus_of(loc):
    """the field of the host a stop flag hangs off"""
    r = loc[0]
    while r[0] == 'deref':
        t = strip_own(unmoved(r[1]))
        if t[0] == 'fld':
            return t[2]
        if t[0] == 'addr':
            r = t[1][0]
            continue
        break
    return None


def unroll_consts(evs, x):
    """hook calls with the signals they are for"""
    for e in evs:
        h = hooked(e)
        if h is None:
            continue
        s = h[0]
        yield e, const_signals(x, s)


def stop_fields(c, m, busf):
    """what stopping and asking look at does not change under their hands"""
    pub = [f for f in c.prog.methods.get(LP, []) if f.get('acc') == 0 and not f.get('isctor') and not f.get('dtor')]
    used, changed = {}, {}
    for f in pub:
        for x in c.run(f, EndPolicy()):
            for e in flatten(x.events):
                if e.k != 'acc' or e.loc[0] != THIS or e.atomic or not e.loc[1]:
                    continue
                d = changed if e.rw == 'w' else used
                if e.rw != 'w' and f['q'].endswith('::Start'):
                    continue
                d.setdefault(e.loc[1][0], []).append((e, f))
    n = 0
    for name, us in used.items():
        for e, f in us:
            n += 1
            bad = [w for w, g in changed.get(name, []) if not set(w.held) & set(e.held)]
            c.ob(not bad, 'a stop request may come from any thread at any time', bad[0] if bad else e,
                 '%s changes while %s looks at it' % (name, f['q']) if bad else '')
    st = c.one(LP + '::Stop', 0)
    ok = 0
    for x in c.run(st, SigPolicy()):
        ws = [e for e in writes(list(flatten(x.events))) if switches_off(e) and (THIS, e.loc[1][-1:]) in m.flags]
        off = [a for a, v in x.facts.items() if a[0] == 'null' and v]
        c.ob(x.kind == 'return' and (ws or off), 'a stop request stops the root bus', st)
        ok += bool(ws)
    c.ob(ok > 0, 'a stop request stops the root bus', st)


def shutdown(c):
    st = c.one(LP + '::Start', 0)
    iss = c.one(LP + '::IsStopped', 0)
    ctors = [f for f in c.prog.methods.get(LP, []) if f.get('isctor') and not f.get('copy') and not f.get('move')]
    fields = set()
    for x in c.run(iss, EndPolicy()):
        for e in flatten(x.events):
            if e.k == 'acc' and e.loc[0] == THIS and e.loc[1]:
                fields.add(e.loc[1][0])
        for a in x.facts:
            for t in subterms(a):
                if t[0] == 'ard' and t[2][0] == THIS:
                    fields.add(t[2][1][0])
        for t in subterms(x.val):
            if t[0] == 'ard' and t[2][0] == THIS:
                fields.add(t[2][1][0])

    def says(path):
        r = set()
        for y in c.cont(iss, path, this=PTHIS, args=[], pol=QuietPolicy()):
            r.add(y.val if is_const(y.val) else None)
        return r
    for f in ctors:
        for x in c.run(f, EndPolicy()):
            if x.kind == 'return':
                c.ob(says(x) == {FALSE}, 'a host that has not been run is not reported as stopped', f, str(says(x)))
    order = 'when the bus has ended, buses are detached, then plugins unloaded, and only then the host is reported as stopped'
    n = 0
    for x in c.run(st, EndPolicy()):
        evs = list(reach(x.events))
        run = [i for i, e in enumerate(evs) if e.k == 'call' and e.q == BUS + '::Start']
        if x.kind != 'return':
            continue
        n += 1
        det = [i for i, e in enumerate(evs) if e.k == 'call' and e.q == BUS + '::Detach']
        unl = [i for i, e in enumerate(evs) if e.k == 'call' and e.q == PM + '::UnloadTemplates']
        if not c.ob(len(run) == 1, 'starting the host runs the root bus once', st, str(len(run))):
            continue
        b = evs[run[0]]
        ok = len(unl) >= 1 and unl[0] > run[0] and any(run[0] < d < unl[0] and evs[d].rloc == b.rloc for d in det)
        c.ob(ok, order, evs[unl[0]] if unl else st)
        c.ob(says(x) == {TRUE}, 'a host whose run is over is reported as stopped', st, str(says(x)))
        early = [e for i, e in enumerate(evs) if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS and e.loc[1][:1] and e.loc[1][0] in fields
                 and (not unl or i < unl[-1]) and stopped_value(c, iss, e)]
        c.ob(not early, order, early[0] if early else st, 'reported as stopped before that')
    c.ob(n > 0, 'starting the host comes to an end', st)
    for f in c.prog.methods.get(LP, []):
        if f.get('acc') != 0 or f.get('isctor') or f.get('dtor') or f['id'] == st['id']:
            continue
        for x in c.run(f, EndPolicy()):
            for e in flatten(x.events):
                if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS and e.loc[1][:1] and e.loc[1][0] in fields:
                    c.ob(not stopped_value(c, iss, e), order, e, 'reported as stopped on request')


def stopped_value(c, iss, e):
    """would the host count as stopped with this value"""
    def pre(s, fr):
        s.store[THIS] = path_set(('init', THIS), e.loc[1], e.val)
    return any(y.val != FALSE for y in c.run(iss, QuietPolicy(), pre=pre))


# ------------------------------------------------------------------- C28
OUTS = ('std::cout', 'std::cerr', 'std::clog', 'std::wcout')
PRINTS = ('printf', 'puts', 'putchar', 'fputs', 'fputc', 'fprintf', 'fwrite', 'vprintf', 'std::printf', 'std::puts', 'std::putchar', 'std::fputs', 'std::fprintf', 'std::fwrite', 'write', 'dprintf')
OUTM = ('std::basic_ostream::write', 'std::basic_ostream::put', 'std::basic_ostream::flush')


class LogPolicy(Policy):
    strict = True
    opaque_default = ()
    opaque = ('lp::messages::', 'lp::bus::', PM + '::')


def out_event(e):
    if e.k == 'stream' and e.op == '<<' and e.loc and e.loc[0][0] == 'glob' and e.loc[0][1] in OUTS:
        return True
    if e.k == 'call' and (e.q in PRINTS or base_name(e.q or '') in ('write', 'put', 'flush') and e.rloc is not None and e.rloc[0][0] == 'glob' and e.rloc[0][1] in OUTS):
        return True
    return False


def names_out(c, f):
    """does the text of f write to an output of the process"""
    for n in walk(f):
        if n.get('k') == 'ref' and (n.get('q') or n.get('n')) in OUTS + ('cout', 'cerr', 'clog'):
            return n
        g = n.get('f')
        if isinstance(g, dict) and g.get('q') in PRINTS:
            return n
    return None


def chars(t, ty=''):
    if isinstance(t[1], str):
        return t[1]
    if type(t[1]) is int and 'char' in (ty or 'char'):
        return chr(t[1]) if 0 <= t[1] < 128 else None
    return None


def times(x, l):
    """how often the body of a loop runs: (term, clamped at zero) or None"""
    if l.exits - {None, 'cond'} if isinstance(l.exits, set) else l.exits:
        return None
    if any(b['kind'] not in ('next', 'n', 'c', 'continue') for b in l.bodies):
        return None
    if l.kind == 'count' and l.full and l.step in (1, C(1)) and l.start is not None and l.bound is not None:
        return sub(l.bound, l.start)
    if len(l.guard or ()) == 1 and len(l.guard[0]) == 1:
        (a, v), = l.guard[0]
        ind = ('ind', l.id)
        if v is True and a[0] == 'lt0' and dict(to_lin(a[1])[1]).get(ind) == 1:
            rest = sub(a[1], ind)
            if not contains(rest, lambda t: t[0] in ('ind', 'lv')):
                return sub(C(0), rest)
        if v is False and a[0] == 'lt0' and dict(to_lin(a[1])[1]).get(ind) == -1:
            rest = add(a[1], ind)
            if not contains(rest, lambda t: t[0] in ('ind', 'lv')):
                return add(rest, C(1))
        for loc, n0 in (l.pre or {}).items():
            k = ('lv', l.id, loc)
            down = all(b['upd'].get(loc) == sub(k, C(1)) for b in l.bodies)
            if down and v is True and a == ('lt0', sub(C(0), k)):
                return n0
    return None


def parts(x, t):
    """a text as a list of constant strings, terms and ('rep', character, factor, count term, clamped)"""
    t = unmoved(t)
    k = t[0]
    if k == 'cat':
        return [y for u in t[1] for y in parts(x, u)]
    if k == 'app':
        return parts(x, t[1]) + parts(x, t[2])
    if k == 'c':
        s = chars(t)
        return ([s] if s else []) if s is not None else [t]
    if t == EMPTY or k == 'zero':
        return []
    if k == 'res' and base_name(t[1].split('<')[0]) in ('str',) or k == 'res' and t[1].endswith('::str'):
        return parts(x, t[2][0])
    if k == 'app1' and len(t) >= 3 and len(t[2]) == 2:
        return many(t[2][1], t[2][0])
    if k == 'mut' and t[1] == 'append' and len(t[3]) == 2:
        return parts(x, t[2]) + many(t[3][1], t[3][0])
    if k == 'mut' and t[1] == 'insert' and len(t[3]) == 3 and t[3][0] == C(0):
        return many(t[3][2], t[3][1]) + parts(x, t[2])
    if k == 'lv':
        for l in loops(x.events):
            if l.id != t[1] or t[2] not in (l.pre or {}):
                continue
            n = times(x, l)
            us = {b['upd'].get(t[2]) for b in l.bodies}
            if n is None or len(us) != 1 or None in us:
                return [t]
            ps = joined(parts_raw(x, us.pop(), t))
            before = parts(x, l.pre[t[2]])
            if len(ps) == 2 and ps[0] == t and isinstance(ps[1], str) and len(set(ps[1])) == 1:
                return before + [('rep', ps[1][0], len(ps[1]), n, True)]
            if len(ps) == 2 and ps[1] == t and isinstance(ps[0], str) and len(set(ps[0])) == 1:
                return [('rep', ps[0][0], len(ps[0]), n, True)] + before
            return [t]
    return [t]


class Evs:
    def __init__(self, events):
        self.events = events


def plain_text(events, t):
    """a text put together in any way, as one value"""
    r = C('')
    for p in parts(Evs(events), t):
        r = cat(r, C(p) if isinstance(p, str) else p)
    return r


def parts_raw(x, t, keep):
    t = unmoved(t)
    if t == keep:
        return [t]
    if t[0] == 'cat':
        return [y for u in t[1] for y in parts_raw(x, u, keep)]
    if t[0] == 'app':
        return parts_raw(x, t[1], keep) + parts_raw(x, t[2], keep)
    return parts(x, t)


def many(ch, n):
    s = chars(ch) if ch[0] == 'c' else None
    if s is None or len(s) != 1:
        return [('many', ch, n)]
    c0, d = to_lin(n)
    if c0 == 0 and len(d) == 1:
        (k, f), = d.items()
        if k[0] == 'max' and C(0) in k[1:]:
            return [('rep', s, f, [y for y in k[1:] if y != C(0)][0], True)]
        return [('rep', s, f, k, False)]
    if not d:
        return [s * c0]
    return [('many', ch, n)]


def joined(ps):
    r = []
    for p in ps:
        if p == '':
            continue
        if isinstance(p, str) and r and isinstance(r[-1], str):
            r[-1] += p
        else:
            r.append(p)
    return r


def written(x, e):
    """what an output event writes"""
    if e.k == 'stream':
        v = unmoved(e.val)
        if v[0] == 'func':
            n = base_name(v[2].split('<')[0])
            return ['\n'] if n == 'endl' else [] if n == 'flush' else [v]
        if v[0] == 'c':
            s = chars(v, e.vt)
            return [s] if s is not None else [v]
        return parts(x, v)
    n = base_name(e.q)
    a = [unmoved(t) for t in e.args]
    if n == 'flush':
        return []
    if n == 'put':
        return parts(x, a[0])
    if n in ('puts',):
        return parts(x, a[0]) + ['\n']
    if n == 'fputs':
        return parts(x, a[0])
    if n == 'write' and len(a) == 2 and a[1] == size(a[0]):
        return parts(x, a[0])
    if n in ('printf', 'fprintf'):
        a = a[1:] if n == 'fprintf' else a
        if a and is_const(a[0]) and isinstance(a[0][1], str):
            r, rest = [], a[1:]
            bits = a[0][1].split('%s')
            if '%' not in ''.join(bits) and len(bits) == len(rest) + 1:
                for i, b in enumerate(bits):
                    r.append(b)
                    if i < len(rest):
                        r += parts(x, rest[i])
                return r
    return [('?', e.q)]


def outputs(x, evs):
    """[(event or loop, pieces)] in order"""
    r = []
    for e in evs:
        if out_event(e):
            r.append((e, written(x, e)))
        elif e.k == 'loop' and any(out_event(y) for y in flatten([e])):
            n = times(x, e)
            ps = {tuple(joined([p for _, q in outputs(x, b['events']) for p in q])) for b in e.bodies}
            if n is not None and len(ps) == 1:
                p = list(ps.pop())
                if len(p) == 1 and isinstance(p[0], str) and len(set(p[0])) == 1:
                    r.append((e, [('rep', p[0][0], len(p[0]), n, True)]))
                    continue
            r.append((e, [('loop',)]))
    return r


def levels_given(c, ops):
    """no call in the sources passes a negative level"""
    ids = {f['id'] for f in ops}
    for f in c.prog.funcs.values():
        if not in_src(c, f):
            continue
        for n, g in callees(f):
            if g.get('id') in ids and len(n.get('a', ())) > 1:
                ks = [y for y in walk(n['a'][1])]
                if any(y.get('k') in ('ref', 'mem', 'call', 'un') for y in ks) or not any(y.get('k') == 'int' for y in ks):
                    return False
    return True


def is_indent(p, x, level, natural=False):
    if isinstance(p, tuple) and p[0] == 'rep' and p[1] == ' ' and p[2] == 2 and p[3] == level:
        f = x.facts
        return p[4] or natural or f.get(('lt0', level)) is False or f.get(('lt0', sub(C(0), level))) is True
    return False


def no_level(x, level):
    f = x.facts
    return f.get(('lt0', sub(C(0), level))) is False or f.get(('lt0', level)) is True or f.get(('eq0', level)) is True or f.get(('lt0', sub(level, C(1)))) is True


def common_lock(c, x, outs):
    """the mutexes of the process held around all of the output, without a gap"""
    evs = []

    def go(es):
        for e in es:
            evs.append(e)
            if e.k == 'loop':
                for b in e.bodies:
                    go(b['events'])
    go(x.events)
    pos = [i for i, e in enumerate(evs) if out_event(e)]
    if not pos:
        return set()
    ms = set.intersection(*[set(evs[i].held) for i in pos])
    ms = {m for m in ms if m[0][0] == 'glob'}
    for e in evs[pos[0]:pos[-1]]:
        if e.k == 'unlock':
            ms.discard(e.m)
    return ms


def c28(c):
    ctors = [f for f in c.prog.methods.get(LOG, []) if f.get('isctor') and not f.get('copy') and not f.get('move') and len(f['params']) == 1]
    ops = [f for f in c.prog.methods.get(LOG, []) if f.get('acc') == 0 and not f.get('isctor') and not f.get('dtor') and not f.get('static') and f['pt'] and 'basic_string' in f['pt'][0]]
    if not c.ob(len(ctors) == 1 and len(ops) >= 3, 'the operations of a log are found', ctors[0] if ctors else None):
        return
    MSG, LVL = ('p', 'message'), ('p', 'level')
    locks = []
    natural = levels_given(c, ops)
    for w in c.run(ctors[0], LogPolicy()):
        if w.kind != 'return':
            c.ob(False, 'creating a log does not fail', ctors[0])
            continue
        for f in ops:
            args = [MSG, LVL][:len(f['params'])]
            for x in c.anytime(f, w, this=PTHIS, args=args, pol=LogPolicy()):
                if not c.ob(x.kind == 'return', 'logging does not fail', x.val.src if x.kind == 'throw' else f):
                    continue
                outs = outputs(x, x.events)
                ps = joined([p for _, q in outs for p in q])
                txt = 'each message becomes one line: the prefix in brackets, two spaces for each level, the message'
                want = ['[', ('p', 0), '] ']
                ok = ps[:1] == ['['] and len(ps) >= 4 and unmoved(ps[1]) == ('p', 0) and ps[-1] == '\n'
                mid = ps[2:-1] if ok else []
                if ok:
                    ok = bool(mid) and mid[0] == '] '
                    ind = mid[1:-1]
                    ok = ok and len(mid) >= 2 and mid[-1] == MSG
                    ok = ok and (len(ind) == 1 and is_indent(ind[0], x, LVL, natural) or not ind and (len(f['params']) < 2 or no_level(x, LVL)))
                n = len([1 for _, q in outs if any(q)])
                c.ob(n <= 1, 'a line is handed to the output in one piece, as plugins have a lock of their own', outs[-1][0] if outs else f, '%d pieces' % n)
                c.ob(ok, txt, outs[-1][0] if outs else f, ' '.join(p if isinstance(p, str) else str(p)[:60] if p[0] == 'rep' else show(p)[:60] for p in ps)[:300] or 'nothing is written')
                if outs:
                    ms = common_lock(c, x, outs)
                    c.ob(bool(ms), 'a line is written under one lock of the process, in one go', outs[0][0])
                    locks.append(ms)
                    c.ob(all(e.k != 'stream' or e.loc[0][1] == 'std::cout' for e in flatten(x.events) if out_event(e)), 'log lines go to standard output', outs[0][0])
    same = set.intersection(*locks) if locks else set()
    if locks:
        c.ob(bool(same), 'all lines are written under the same lock', ops[0])
    # who else writes there
    for f in list(c.prog.funcs.values()):
        if not in_src(c, f) or f['id'] in c.funcs or f['q'] == 'main' or f.get('lam'):
            continue
        n = names_out(c, f)
        if n is None:
            continue
        seen = False
        for x in c.run(f, LogPolicy()):
            for e in flatten(x.events):
                if out_event(e):
                    seen = True
                    c.ob(bool(set(e.held) & same), 'everything the library writes to the output is written under the lock of the log', e)
        if not seen:
            c.ob(False, 'everything the library writes to the output is written under the lock of the log', (f['file'], n.get('l'), f['q']), 'in a way that cannot be followed')


# ------------------------------------------------------------------- C29
ERRS = {'ArgumentNullException': 'GetParameterName', 'DuplicateKeyException': 'GetKey', 'KeyNotFoundException': 'GetKey', 'IndexOutOfBoundsException': 'GetIndex',
        'InvalidOperationException': None, 'OperationFailedException': None}
# the names parameters were given when the interface was made: (class or function, position) -> name
GIVEN = {('lp::bus::Bus::Bus', 0): 'name', ('lp::bus::Bus::Bus', 1): 'publishMessageFunction', ('lp::bus::Bus::CreateChildBus', 0): 'name',
         ('lp::bus::Publisher::Publisher', 1): 'publishingFunction', ('lp::bus::ActionConsumer::RequestAsync', 1): 'callback', ('lp::data::RawBytes::RawBytes', 0): 'content'}


class ErrPolicy(Policy):
    opaque_default = ()
    opaque = ('lp::log::',)


class RaisePolicy(Policy):
    opaque_default = ('lp::log::', 'lp::utilities::Uuid::CreateUuid', EXC)


def c29(c):
    base = EXC + 'Exception'
    n = 0
    for cls, r in sorted(c.prog.classes.items()):
        if not cls.startswith(EXC) or cls.count('::') != 2:
            continue
        n += 1
        site = (r['file'], r['l'], cls)
        c.ob(base in r['pub'] and 'std::runtime_error' in r['pub'], 'an error can be caught as the base error and as the standard runtime error', site, ', '.join(r['pub']))
        errs = [k for k in r['pub'] if k in ('std::runtime_error', base)]
        c.ob(errs.count(base) == 1 and errs.count('std::runtime_error') <= 1, 'an error can be caught as the base error and as the standard runtime error', site, 'ambiguous base')
        others = [k for k in r['pub'] if k.startswith(EXC) and k not in (cls, base)]
        c.ob(not others, 'an error is not caught as one of another kind', site, ', '.join(others))
        c.ob(not r.get('copyctor_implicit_deleted'), 'an error can be raised and caught', site)
        over = [m for m in r['methods'] if m['n'] == 'what']
        short = cls[len(EXC):]
        getters = [m for m in c.prog.methods.get(cls, []) if not m['params'] and not m.get('isctor') and not m.get('dtor') and m.get('acc') == 0 and m.get('rt') != 'void' and not m.get('op')]
        ctors = [f for f in c.prog.methods.get(cls, []) if f.get('isctor') and not f.get('copy') and not f.get('move') and not f.get('implicit')]
        c.ob(len(ctors) >= 1, 'an error keeps its message', site, 'no constructor')
        for f in ctors:
            k = len(f['params']) - 1
            for x in c.run(f, ErrPolicy()):
                c.ob(x.kind == 'return', 'an error can be raised and caught', f)
                ms = [e for e in flatten(x.events) if e.k == 'call' and e.ctor and (e.cls or '').startswith('std::') and e.cls.endswith('error')]
                c.ob(len(ms) == 1 and ms[0].cls == 'std::runtime_error' and len(ms[0].args) == 1 and unmoved(ms[0].args[0]) == ('p', k), 'an error keeps its message', ms[0] if ms else f,
                     show(ms[0].args[0])[:100] if ms else 'no message')
                for g in [c.prog.funcs[m['id']] for m in over if m['id'] in c.prog.funcs]:
                    for y in c.cont(g, x, this=PTHIS, args=[], pol=ErrPolicy()):
                        v = unmoved(y.val) if y.kind == 'return' else None
                        if is_call(v, 'c_str') or is_call(v, 'data'):
                            v = unmoved(v[2])
                        c.ob(v == ('p', k) or is_call(v, 'std::runtime_error::what') or is_call(v, 'what'), 'an error keeps its message', g, show(v)[:100] if v else '')
                want = ERRS.get(short)
                if want is None:
                    continue
                gs = [g for g in getters if base_name(g['q']) == want]
                if not c.ob(len(gs) == 1 and k == 1, 'an error says what it is about', f, want):
                    continue
                for y in c.cont(gs[0], x, this=PTHIS, args=[], pol=ErrPolicy()):
                    c.ob(y.kind == 'return' and unmoved(y.val) == ('p', 0), 'an error says what it is about', gs[0], show(y.val)[:100] if isinstance(y.val, tuple) else '')
    c.ob(n >= 7, 'the errors of the library are found', None, str(n))
    for k in ERRS:
        c.ob(EXC + k in c.prog.classes, 'the errors of the library are found', None, k)
    # what is raised is one of them
    m = 0
    for f in c.prog.funcs.values():
        if not in_src(c, f) or f['q'] == 'main':
            continue
        for nd in walk(f):
            if nd.get('k') == 'throw' and nd.get('tt'):
                m += 1
                c.funcs.add(f['id'])
                tt = nd['tt'].replace('const ', '')
                c.ob(tt == base or base in (nd.get('bases') or []), 'what the library raises is one of its own errors', (f['file'], nd.get('l'), f['q']), nd['tt'])
    c.ob(m > 0, 'places that raise errors are found', None)
    # a missing argument is reported under its own name
    null = EXC + 'ArgumentNullException'
    k = 0
    pub = [f for f in c.prog.funcs.values() if in_src(c, f) and 'cls' in f and f.get('acc') == 0 and not f.get('lam') and f['params']]
    for f in pub:
        if not raises(c, f, null, {f['id']}):
            continue
        for x in c.run(f, RaisePolicy()):
            if x.kind != 'throw' or x.val.tt != null:
                continue
            if x.val.src[2] != f['q'] and any(g.get('acc') == 0 and g['params'] and g in pub for g in c.prog.by_q.get(x.val.src[2], [])):
                continue          # it is that operation's own report, looked at there
            k += 1
            missing = [i for i in range(len(f['params'])) if any(v is True and t in (('empty', ('p', i)), ('null', ('p', i)), ('eq0', size(('p', i)))) for t, v in x.facts.items())]
            nm = unmoved(x.val.args[0]) if x.val.args else None
            said = nm[1] if nm is not None and is_const(nm) else literal(c, nm) if nm is not None else None
            names = set()
            for i in missing:
                names |= {f['params'][i].get('n'), GIVEN.get((f['q'], i))} - {None}
                c.ob(bool(missing) and said in names, 'a missing argument is reported under its own name', x.val.src, '%s reported, missing: %s' % (said, ', '.join(sorted(names)) or 'nothing'))
    c.ob(k > 0, 'missing arguments are reported', None)


def raises(c, f, cls, seen):
    """does f itself, or a helper no one outside can call, raise it"""
    for nd in walk(f):
        if nd.get('k') == 'throw' and cls in (nd.get('bases') or [nd.get('tt')]):
            return True
        g = nd.get('f')
        if isinstance(g, dict):
            h = c.prog.funcs.get(g.get('id'))
            if h and h['id'] not in seen and in_src(c, h) and (h.get('acc') != 0 or h.get('lam') or h.get('cls') != f.get('cls')):
                seen.add(h['id'])
                if raises(c, h, cls, seen):
                    return True
    return False
