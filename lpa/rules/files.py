"""Rules about the operating system: resources that are released, and the file system helpers."""
import re
from .plug import *
from .host import callees, in_src
from ..terms import to_lin

FS = 'lp::Filesystem'
NPOS = ('init', ('glob', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>::npos'))

# ------------------------------------------------------------------- C19
# acquiring function -> (releasing functions, index of the argument that is the handle, or None for the result)
PAIRS = {
    'opendir': (('closedir',), None), 'fdopendir': (('closedir',), None),
    'json_tokener_new': (('json_tokener_free',), None), 'json_tokener_new_ex': (('json_tokener_free',), None),
    'json_tokener_parse_ex': (('json_object_put',), None), 'json_tokener_parse': (('json_object_put',), None), 'json_tokener_parse_verbose': (('json_object_put',), None),
    'json_object_new_object': (('json_object_put',), None), 'json_object_new_array': (('json_object_put',), None), 'json_object_new_string': (('json_object_put',), None),
    'json_object_from_file': (('json_object_put',), None), 'json_object_from_fd': (('json_object_put',), None),
    'zmq_msg_init': (('zmq_msg_close',), 0), 'zmq_msg_init_size': (('zmq_msg_close',), 0), 'zmq_msg_init_data': (('zmq_msg_close',), 0),
    'fopen': (('fclose',), None), 'popen': (('pclose',), None), 'open': (('close',), None), 'socket': (('close',), None), 'fdopen': (('fclose',), None),
    'malloc': (('free',), None), 'calloc': (('free',), None), 'strdup': (('free',), None), 'realpath': (('free',), None),
}
RELEASES = {r for rs, _ in PAIRS.values() for r in rs}
MSG_SENDS = ('zmq_msg_send', 'zmq_sendmsg')
LOOKS = ('json_tokener_get_error', 'json_object_array_get_idx', 'json_object_get_object', 'json_object_get_string')


class ResPolicy(Policy):
    opaque_default = ('lp::log::', 'lp::exceptions::', 'lp::utilities::Uuid::CreateUuid')
    opaque = ('lp::bus::', PM + '::', PT + '::')
    reads = True


def key_of_handle(a):
    return strip_own(unmoved(a)) if isinstance(a, tuple) else a


def value(t, env):
    """what a term comes to when the terms in env have the given values; None if that is open"""
    if t in env:
        return env[t]
    if not isinstance(t, tuple) or not t:
        return None
    k = t[0]
    if k == 'c':
        return t[1]
    if k == 'lin':
        r = t[1]
        for x, m in t[2]:
            v = value(x, env)
            if v is None or isinstance(v, str):
                return None
            r += m * v
        return r
    if k == 'op' and len(t) == 4:
        a, b = value(t[2], env), value(t[3], env)
        if t[1] in ('&', '*') and (a == 0 and a is not None or b == 0 and b is not None):
            return 0
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return None
        try:
            return {'&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '*': lambda: a * b, '<<': lambda: a << b, '>>': lambda: a >> b, '%': lambda: a % b, '/': lambda: int(a / b)}[t[1]]()
        except (KeyError, ZeroDivisionError):
            return None
    if k in ('min', 'max') and len(t) == 3:
        a, b = value(t[1], env), value(t[2], env)
        return None if a is None or b is None else (min if k == 'min' else max)(a, b)
    if k == 'not' and len(t) == 2:
        v = value(t[1], env)
        return None if v is None else not v
    if k in ('eq0', 'lt0', 'null', 'truth'):
        v = value(t[1], env)
        if v is None:
            return None
        return {'eq0': v == 0, 'lt0': v < 0, 'null': v == 0, 'truth': bool(v)}[k]
    if k == 'eq' and len(t) == 3:
        a, b = value(t[1], env), value(t[2], env)
        return None if a is None or b is None else a == b
    return None


def consistent(facts, env):
    """can the facts hold together with these values"""
    for a, v in facts.items():
        x = value(a, env)
        if x is not None and bool(x) != bool(v):
            return False
    return True


def failed(e, facts):
    """the acquisition did not happen on a path with these facts"""
    r = e.res
    if PAIRS[e.q][1] is not None:
        return not consistent(facts, {r: 0})
    if facts.get(('null', r)) is True or not consistent(facts, {r: 140000}) or not consistent(facts, {r: 3}):
        return True
    if e.q.startswith('json_tokener_parse') and e.args:
        for a, v in facts.items():
            if a[0] == 'eq0' and not v:
                for t in subterms(a):
                    if t[0] == 'fld' and t[2] == 'err' and contains(t[1], lambda y: y == key_of_handle(e.args[0])) or t[0] == 'res' and t[1] == 'json_tokener_get_error' \
                            or t[0] == 'out' and t[1] == e.q:
                        return True
    return False


class Life:
    """what is held along one way through an operation"""
    def __init__(self, c):
        self.c = c
        self.n = 0
        self.seen = set()

    def walk(self, evs, facts, held):
        """held: handle -> ['open' | 'closed' | 'sent', acquiring event]"""
        c = self.c
        for e in evs:
            if e.k == 'loop':
                for b in e.bodies:
                    if b['kind'] != 'next':
                        continue          # followed below, where the loop is left
                    f2 = dict(facts)
                    f2.update(b['facts'])
                    h2 = {k: list(v) for k, v in held.items()}
                    self.walk(b['events'], f2, h2)
                    for k, (st, a) in h2.items():
                        if k not in held:
                            self.due(k, st, a, f2)
                        elif held[k][0] != st:
                            c.ob(False, 'a resource is released exactly once', a, 'released again with every turn of a loop')
                continue
            if e.k == 'acc' and isinstance(e.loc[0], tuple):
                for k, (st, a) in held.items():
                    if st == 'closed' and PAIRS[a.q][1] is None and contains(e.loc[0], lambda t: t == k):
                        c.ob(False, 'a resource is not used after it was released', e, a.q)
                continue
            if e.k != 'call':
                continue
            ks = [key_of_handle(a) for a in e.args]
            if e.q in RELEASES:
                k = ks[0] if ks else None
                mine = k in held
                if k == NULL:
                    continue
                if not mine:
                    own = [p for p, v in PAIRS.items() if e.q in v[0]]
                    borrowed = isinstance(k, tuple) and k[0] == 'res' and k[1] not in own
                    if borrowed and e.q != 'free':
                        c.ob(False, 'only what was acquired is released', e, show(k)[:120])
                    continue
                c.ob(held[k][0] != 'closed', 'a resource is released exactly once', e, 'released twice')
                c.ob(e.q in PAIRS[held[k][1].q][0], 'a resource is released by the function that belongs to it', e, e.q)
                held[k][0] = 'closed'
                self.n += 1
                continue
            for i, k in enumerate(ks):
                if k in held and held[k][0] == 'closed' and not (e.q in PAIRS and PAIRS[e.q][1] == i):
                    c.ob(False, 'a resource is not used after it was released', e, e.q)
            if e.q in MSG_SENDS:
                for k in ks:
                    if k in held and held[k][0] == 'open' and e.res is not None and not consistent(facts, {e.res: -1}):
                        held[k][0] = 'sent'       # handed over; closing it is allowed, not needed
            if e.q in PAIRS and e.res is not None:
                i = PAIRS[e.q][1]
                k = e.res if i is None else ks[i]
                if failed(e, facts):
                    continue
                if e.q == 'realpath' and len(ks) > 1 and ks[1] != NULL:
                    continue
                if k in held and held[k][0] == 'open':
                    c.ob(False, 'a resource is released exactly once', held[k][1], 'acquired again while it is held')
                held[k] = ['open', e]
        return held

    def due(self, k, st, a, facts):
        self.n += 1
        self.seen.add(a.src)
        self.c.ob(st != 'open', 'a resource is released exactly once', a, '%s is not followed by %s on every way' % (a.q, ' or '.join(PAIRS[a.q][0])))


def direct(f, names):
    return any(g['q'] in names for _, g in callees(f))


def c19(c):
    life = Life(c)
    src = [f for f in c.prog.funcs.values() if in_src(c, f)]
    names, done, work = set(PAIRS), set(), []
    sites = 0
    # closures are looked at with the function they are written in
    todo = [f for f in src if direct(f, names) and not f.get('lam')]
    while todo:
        f = todo.pop()
        if f['id'] in done:
            continue
        done.add(f['id'])
        gives = False
        for x in c.run(f, ResPolicy()):
            held = life.walk(x.events, x.facts, {})
            out = set(subterms(x.val)) if x.kind == 'return' and isinstance(x.val, tuple) else set()
            kept = set()
            for loc, v in x.store.items():
                if loc[0] in ('this', 'pref', 'glob') or loc == THIS:
                    kept |= set(subterms(v))
            for k, (st, a) in held.items():
                if st == 'open' and k in out:
                    gives = True
                    continue
                if st == 'open' and PAIRS[a.q][1] is None and k in kept:
                    continue              # kept by the object or the caller
                if st == 'open' and PAIRS[a.q][1] is not None and isinstance(k, tuple) and k[0] == 'addr' and k[1][0][0] not in ('v', 'tmp', 'obj'):
                    continue              # a message of the caller
                life.due(k, st, a, x.facts)
        if gives or any(q in (f.get('rt') or '') for q in ('DIR', 'json_')):
            names.add(f['q'])
            todo += [g for g in src if direct(g, {f['q']}) and not g.get('lam')]
    c.ob(life.n > 0, 'operations that acquire resources are found', None)
    want = {'closedir', 'json_tokener_free', 'json_object_put', 'zmq_msg_close'}
    have = {r for f in src for _, g in callees(f) for p, v in PAIRS.items() if g['q'] == p for r in v[0]}
    c.ob(True, 'acquired kinds: ' + ', '.join(sorted(have)) if have else 'none', None)


# ------------------------------------------------------------------- C30
class FsPolicy(Policy):
    opaque_default = ('lp::log::',)


REG, DIR_, OTHER, GONE = 'a file', 'a directory', 'something else', 'nothing'
MODES = {REG: 0o100644, DIR_: 0o040755, OTHER: 0o020666, GONE: None}
STATS = {'stat': 0, 'stat64': 0, '__xstat': 1, 'fstatat': 1}
SEE = {'std::filesystem::is_regular_file': REG, 'std::filesystem::is_directory': DIR_}


def world(evs, path, kind, name=None):
    """the values of what looking at `path` returns when `kind` is there"""
    env = {}
    for e in evs:
        if e.k != 'call' or e.res is None or not e.args:
            continue
        if e.q in STATS:
            i = STATS[e.q]
            if len(e.args) <= i + 1:
                continue
            p = text_of(e.args[i])
            ok = p == path
            if e.q == 'fstatat':
                ok = name is not None and p == text_of(name) and len(e.args) > 3 and e.args[3] == C(0)
            if not ok:
                continue
            env[e.res] = -1 if kind == GONE else 0
            o = (e.outs or {}).get(i + 1)
            if o is not None and kind != GONE:
                env[('fld', o, 'st_mode')] = MODES[kind]
        elif e.q == 'access' and text_of(e.args[0]) == path and len(e.args) > 1 and e.args[1] == C(0):
            env[e.res] = -1 if kind == GONE else 0
        elif e.q in SEE and text_of(e.args[0]) == path and len(e.args) == 2:
            env[e.res] = kind == SEE[e.q]
        elif e.q == 'std::filesystem::exists' and text_of(e.args[0]) == path and len(e.args) == 2:
            env[e.res] = kind != GONE
    return env


def text_of(t):
    t = unmoved(t)
    while isinstance(t, tuple) and t[0] == 'res' and t[1] in ('std::filesystem::path::path',) and len(t[2]) >= 1:
        t = unmoved(t[2][-1])
    return t


def truth(t, env):
    v = value(t, env)
    return None if v is None else bool(v)


def looks(c, name, yes, kinds):
    f = c.one(FS + '::' + name, 1)
    n = 0
    for x in c.run(f, FsPolicy()):
        if not c.ob(x.kind == 'return', 'looking at a path does not fail', x.val.src if x.kind == 'throw' else f):
            continue
        for k in kinds:
            env = world(list(flatten(x.events)), ('p', 0), k)
            if not consistent(x.facts, env):
                continue
            n += 1
            c.ob(truth(x.val, env) is (k in yes), '%s says what is there, and follows links' % name, f, 'with %s there: %s' % (k, truth(x.val, env)))
    c.ob(n >= len(kinds), '%s says what is there, and follows links' % name, f, 'not for every case')


def is_npos(t):
    return t in (NPOS, ('npos',)) or is_const(t) and t[1] in (-1, 18446744073709551615)


def last_pos(s, ch):
    return [('sfind', 'rfind', s, (C(ord(ch)),))]


def missing(x, pos):
    """is pos npos on this path: True, False, None"""
    for a, v in x.facts.items():
        if a[0] == 'eq0':
            k, d = to_lin(a[1])
            ts = dict(d)
            if set(ts) == {pos, NPOS} and ts[pos] == -ts[NPOS] and k == 0 or set(ts) == {pos, ('npos',)} and k == 0:
                return v
            if set(ts) == {pos} and k == ts[pos]:
                return v
        if a[0] == 'eq' and pos in a[1:] and any(is_npos(y) for y in a[1:]):
            return v
        if a[0] == 'in' and a[2] == pos[2] and a[1] == pos[3][0]:
            return not v
    return None


def is_after(t, s, pos):
    """t is the part of s behind pos"""
    t = unmoved(t)
    if t[0] != 'substr' or t[1] != s or t[2] != add(pos, C(1)):
        return False
    return is_npos(t[3]) or t[3] in (size(s), sub(sub(size(s), pos), C(1)))


def is_before(t, s, pos):
    t = unmoved(t)
    return t[0] == 'substr' and t[1] == s and t[2] == C(0) and t[3] == pos


def nothing(t):
    return unmoved(t) in (C(''), EMPTY, ('zero', 'std::string')) or unmoved(t)[0] == 'zero'


def known_end(x, s, pos):
    """nothing follows pos in s on this path"""
    want = sub(sub(size(s), pos), C(1))
    for a, v in x.facts.items():
        if a == ('eq0', want) and v or a == ('empty', ('substr', s, add(pos, C(1)), ('npos',))) and v:
            return True
        if a[0] == 'lt0':
            if not v and a[1] == sub(C(0), want):
                return True
            if v and a[1] == sub(want, C(1)):
                return True
        if a[0] == 'eq0' and v and to_lin(a[1]) in (to_lin(want), to_lin(sub(C(0), want))):
            return True
    return False


def filename_of(x, t, s):
    pos = last_pos(s, '/')[0]
    m = missing(x, pos)
    if nothing(t):
        return m is True or known_end(x, s, pos)
    return m is False and is_after(t, s, pos)


def paths_rule(c):
    sep = 'a path is split and joined at its last separator'
    f = c.one(FS + '::CombinePaths', 2)
    for x in c.run(f, FsPolicy()):
        ok = x.kind == 'return' and text_parts(x.val) == [('p', 0), '/', ('p', 1)]
        c.ob(ok, sep, f, show(x.val)[:120] if isinstance(x.val, tuple) else '')
    f = c.one(FS + '::GetFilename', 1)
    for x in c.run(f, FsPolicy()):
        c.ob(x.kind == 'return' and filename_of(x, x.val, ('p', 0)), sep, f, show(x.val)[:120] if isinstance(x.val, tuple) else '')
    f = c.one(FS + '::GetBaseDirectory', 1)
    for x in c.run(f, FsPolicy()):
        pos = last_pos(('p', 0), '/')[0]
        m = missing(x, pos)
        ok = x.kind == 'return' and (nothing(x.val) and (m is True or x.facts.get(('eq0', pos)) is True) or m is False and is_before(x.val, ('p', 0), pos))
        c.ob(ok, sep, f, show(x.val)[:120] if isinstance(x.val, tuple) else '')
    f = c.one(FS + '::GetFileExtension', 1)
    for x in c.run(f, FsPolicy()):
        c.ob(x.kind == 'return' and extension_of(x, x.val, ('p', 0)), 'the extension is what follows the last dot of the file name', f, show(x.val)[:160] if isinstance(x.val, tuple) else '')


def extension_of(x, t, s):
    sp = last_pos(s, '/')[0]
    name = ('substr', s, add(sp, C(1)), ('npos',))
    m = missing(x, sp)
    if m is None:
        return False
    if m or known_end(x, s, sp):
        return nothing(t)
    if x.facts.get(('empty', name)) is True:
        return nothing(t)
    dot = last_pos(name, '.')[0]
    d = missing(x, dot)
    if d is not None:
        if d or known_end(x, name, dot):
            return nothing(t)
        return is_after(t, name, dot)
    # the last dot of the whole path, if it is behind the separator
    dot = last_pos(s, '.')[0]
    d = missing(x, dot)
    if d is True:
        return nothing(t)
    if d is False:
        before = None
        for a, v in x.facts.items():
            if a == ('lt0', sub(dot, sp)):
                before = v
            if a == ('lt0', sub(sp, dot)):
                before = not v
        if before is True:
            return nothing(t)
        if before is False:
            return is_after(t, s, dot) or nothing(t) and known_end(x, s, dot)
    return False


def text_parts(t):
    t = unmoved(t)
    if t[0] == 'cat':
        r = []
        for y in t[1]:
            for z in text_parts(y):
                if isinstance(z, str) and r and isinstance(r[-1], str):
                    r[-1] += z
                else:
                    r.append(z)
        return r
    if is_const(t):
        if isinstance(t[1], str):
            return [t[1]] if t[1] else []
        if isinstance(t[1], int) and 0 < t[1] < 256:
            return [chr(t[1])]
    if t[0] == 'app' and t[2][0] == 'c':
        r = text_parts(t[1])
        z = t[2][1]
        z = chr(z) if isinstance(z, int) else z
        if r and isinstance(r[-1], str):
            return r[:-1] + [r[-1] + z]
        return r + [z]
    return [t]


FILE_, DIRS, ANY = 1, 2, 3


def contents_rule(c):
    all_ = 'a directory listing holds exactly the entries of the requested kinds'
    f = c.one(FS + '::GetDirectoryContents', 2)
    n = 0
    lines = set()
    for x in c.run(f, FsPolicy()):
        if not c.ob(x.kind == 'return', 'listing a directory does not fail', x.val.src if x.kind == 'throw' else f):
            continue
        opens = [e for e in flatten(x.events) if e.k == 'call' and e.q == 'opendir']
        if not c.ob(len(opens) == 1 and text_of(opens[0].args[0]) == ('p', 0), 'the requested directory is listed', f):
            continue
        d = opens[0].res
        if x.facts.get(('null', d)) is True:
            c.ob(nothing(x.val), 'a directory that cannot be read has no entries', f, show(x.val)[:80])
            continue
        val = unmoved(x.val)
        ls = [e for e in x.events if e.k == 'loop' and any(y.k == 'call' and y.q == 'readdir' for b in e.bodies for y in flatten(b['events']))]
        if not ls:
            poss = [v for v in (FILE_, DIRS, ANY) if consistent(x.facts, {('p', 1): v})]
            c.ob(not poss, all_, f, 'nothing is listed')
            continue
        if not c.ob(len(ls) == 1 and val[0] == 'lv' and val[1] == ls[0].id, all_, f, show(val)[:100]):
            continue
        lp = ls[0]
        loc = val[2]
        ahead = [l for l, v in lp.pre.items() if is_call(v, 'readdir')]
        ends = [a for a, v in x.facts.items() if a[0] == 'null' and v and (is_call(strip_own(a[1]), 'readdir') or a[1][0] == 'lv' and a[1][1] == lp.id and a[1][2] in ahead)]
        c.ob(bool(ends), 'every entry of the directory is looked at', lp)
        c.ob(nothing(lp.pre.get(loc, EMPTY)), all_, lp, 'the list is not empty at the start')
        for b in lp.bodies:
            facts = dict(x.facts)
            facts = {a: v for a, v in facts.items() if not contains(a, lambda t: is_call(t, 'readdir') or t[0] == 'lv' and t[1] == lp.id)}
            facts.update(lp.facts)
            facts.update(b['facts'])
            rd = [e for e in b['events'] if e.k == 'call' and e.q == 'readdir']
            if b['kind'] == 'break' and rd and facts.get(('null', rd[-1].res)) is True:
                continue
            if not c.ob(b['kind'] == 'next', 'every entry of the directory is looked at', lp, 'left early'):
                continue
            if not c.ob(len(rd) == 1 and strip_own(unmoved(rd[0].args[0])) == d, 'every entry of the directory is looked at', lp):
                continue
            entry = rd[0].res
            for l, v in b['upd'].items():
                # read ahead: this turn's entry was read before it
                if v == entry and is_call(lp.pre.get(l) or C(0), 'readdir') and rargs(lp.pre[l]) == (d,) and facts.get(('null', ('lv', lp.id, l))) is False:
                    entry = ('lv', lp.id, l)
            name = ('fld', ('init', ('deref', entry)), 'd_name')
            got = b['upd'].get(loc, ('lv', lp.id, loc))
            adds = []
            while got[0] in ('app', 'pre') and len(got) == 3:
                adds.append(unmoved(got[2]))
                got = got[1]
            if not c.ob(got == ('lv', lp.id, loc) and all(text_parts(a) == [name] for a in adds), all_, lp, ', '.join(show(a)[:60] for a in adds) or show(got)[:80]):
                continue
            full = ('cat', (('p', 0), C('/'), name))
            evs = list(flatten(b['events']))
            for v in (FILE_, DIRS, ANY):
                for k in MODES:
                    env = {('p', 1): v}
                    env.update(world(evs, full, k, name))
                    if not consistent(facts, env):
                        continue
                    n += 1
                    lines.add((v, k))
                    want = (1 if k == REG and v & 1 or k == DIR_ and v & 2 else 0)
                    c.ob(len(adds) == want, all_, lp, 'asked for %s, the entry is %s: added %d times' % ({1: 'files', 2: 'directories', 3: 'both'}[v], k, len(adds)))
    c.ob(len(lines) == 12, all_, f, '%d of 12 cases' % len(lines))


def extent(ty):
    m = re.search(r'\[(\d+)\]', ty or '')
    return int(m.group(1)) if m else None


def at_most(t, k, facts):
    """t <= k"""
    t = unmoved(t)
    if is_const(t):
        return isinstance(t[1], int) and t[1] <= k
    if t[0] == 'min':
        return at_most(t[1], k, facts) or at_most(t[2], k, facts)
    if t[0] == 'max':
        return at_most(t[1], k, facts) and at_most(t[2], k, facts)
    if t[0] == 'res' and t[1] == 'readlink' and len(t[2]) == 3 and is_const(t[2][2]) and t[2][2][1] <= k:
        return True
    if t[0] == 'res' and t[1] == 'readlink' and len(t[2]) == 3 and is_const(t[2][2]) and t[2][2][1] == k + 1 and any(a[0] == 'eq0' and not v and to_lin(a[1]) in ((k + 1, {t: -1}), (-k - 1, {t: 1})) for a, v in facts.items()):
        return True
    cst, d = to_lin(t)
    if len(d) == 1 and list(d.values()) == [1] and (cst or list(d)[0] != t):
        return at_most(list(d)[0], k - cst, facts)
    for a, v in facts.items():
        if a[0] == 'lt0':
            b, dd = to_lin(a[1])
            if dd == {t: 1} and v and -b - 1 <= k:        # t + b < 0
                return True
            if dd == {t: -1} and not v and b <= k:         # b - t >= 0
                return True
    return False


def at_least0(t, facts):
    t = unmoved(t)
    if is_const(t):
        return isinstance(t[1], int) and t[1] >= 0
    if t[0] == 'min':
        if all(at_least0(y, facts) for y in t[1:]):
            return True
    for a, v in facts.items():
        if a[0] == 'lt0':
            b, dd = to_lin(a[1])
            if dd == {t: 1} and not v and b <= 0:          # t + b >= 0
                return True
            if dd == {t: -1} and v and b >= -1:            # b < t
                return True
            # of a minimum: what holds of it holds of both parts
            for y, m in dd.items():
                if y[0] == 'min' and t in y[1:] and m == 1 and not v and b <= 0 and len(dd) == 1:
                    return True
        if a[0] == 'eq0' and not v and t[0] == 'res' and t[1] == 'readlink':
            b, dd = to_lin(a[1])
            if dd in ({t: 1}, {t: -1}) and b == dd[t]:     # it is -1 or not negative
                return True
    return False


PATH_MAX = 4095           # without the null byte


def own_paths_rule(c):
    where = 'the path of the running program is the whole text of its link, or empty'
    f = c.one(FS + '::GetPathOfRunningExecutable', 0)
    got = 0
    for x in c.run(f, FsPolicy()):
        if not c.ob(x.kind == 'return', where, f):
            continue
        evs = list(flatten(x.events))
        sizes = {(e.root, ()): extent((e.decl or {}).get('t')) for e in evs if e.k == 'local'}
        rl = [e for e in evs if e.k == 'call' and e.q == 'readlink']
        if not c.ob(len(rl) == 1, where, f, 'the link is not read'):
            continue
        e = rl[0]
        n = e.args[2]
        cap = sizes.get(e.alocs[1]) if e.alocs[1] else None
        c.ob(link_ok(e.args[0]), where, e, show(e.args[0])[:100])
        if e.alocs[1] is not None and cap is not None:
            c.ob(at_most(n, cap, x.facts), 'reading a link stays inside its buffer', e, 'asks for %s bytes of %s' % (show(n), cap))
        for i in evs:
            if i.k == 'index' and e.alocs[1] is not None and i.loc[0] == e.alocs[1][0]:
                ok = cap is not None and at_most(i.i, cap - 1, x.facts) and at_least0(i.i, x.facts)
                c.ob(ok, 'reading a link stays inside its buffer', i, show(i.i)[:100])
        err = not consistent(x.facts, {e.res: 5})
        if nothing(x.val):
            c.ob(err, where, f, 'empty although the link was read')
            continue
        got += 1
        c.ob(not consistent(x.facts, {e.res: -1}), where, f, 'read although there was no link')
        out = (e.outs or {}).get(1)
        v = unmoved(x.val)
        ok = False
        if v[0] == 'put' and v[1] == out and v[3] == C(0):
            ok = whole(v[2], e.res, n, x.facts)
        elif v[0] == 'substr' and v[1] == out and v[2] == C(0):
            ok = whole(v[3], e.res, n, x.facts)
        elif v[0] == 'app1' and v[1] == 'string' and len(v[2]) == 2 and v[2][0] == out:
            ok = whole(v[2][1], e.res, n, x.facts)
        c.ob(ok, where, f, show(v)[:160])
    c.ob(got > 0, where, f)
    cwd = 'the working directory is the one of the process, or empty'
    f = c.one(FS + '::GetWorkingDirectory', 0)
    got = 0
    for x in c.run(f, FsPolicy()):
        if not c.ob(x.kind == 'return', cwd, f):
            continue
        evs = list(flatten(x.events))
        sizes = {(e.root, ()): extent((e.decl or {}).get('t')) for e in evs if e.k == 'local'}
        gs = [e for e in evs if e.k == 'call' and e.q in ('getcwd', 'get_current_dir_name')]
        if not c.ob(len(gs) == 1, cwd, f):
            continue
        e = gs[0]
        if e.q == 'getcwd' and e.args[0] != NULL:
            cap = sizes.get(e.alocs[0]) if e.alocs[0] else None
            c.ob(cap is not None and at_most(e.args[1], cap, x.facts), 'reading the working directory stays inside its buffer', e, 'asks for %s bytes of %s' % (show(e.args[1]), cap))
        out = (e.outs or {}).get(0)
        if x.facts.get(('null', e.res)) is True:
            c.ob(nothing(x.val), cwd, f, show(x.val)[:100])
        else:
            got += 1
            c.ob(x.facts.get(('null', e.res)) is False and unmoved(x.val) in (out, e.res), cwd, f, show(x.val)[:100])
    c.ob(got > 0, cwd, f)


def whole(k, res, n, facts):
    """k is the number of bytes the call returned, and it returned all there are"""
    k = unmoved(k)
    if not is_const(n):
        return False
    # a link that fills the buffer may have been cut; one of this kind is never longer than a path may be
    roomy = n[1] >= PATH_MAX
    if k == res:
        return roomy or at_most(res, n[1] - 1, facts)
    if k[0] == 'min' and res in k[1:]:
        o = [y for y in k[1:] if y != res]
        return len(o) == 1 and is_const(o[0]) and n[1] - 1 <= o[0][1] and (roomy or at_most(res, n[1] - 1, facts))
    return False


def link_ok(t):
    ps = text_parts(t)
    if ps == ['/proc/self/exe']:
        return True
    return len(ps) == 3 and ps[0] == '/proc/' and ps[2] == '/exe' and ps[1][0] == 'tostr' and is_call(ps[1][1], 'getpid')


def c30(c):
    looks(c, 'IsFile', (REG,), (REG, DIR_, OTHER, GONE))
    looks(c, 'IsDirectory', (DIR_,), (REG, DIR_, OTHER, GONE))
    looks(c, 'PathExists', (REG, DIR_, OTHER), (REG, DIR_, OTHER, GONE))
    paths_rule(c)
    contents_rule(c)
    own_paths_rule(c)
