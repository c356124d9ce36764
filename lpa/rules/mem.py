"""Rules about raw memory: byte buffers and copies into raw storage."""
import os
import re
from ..prog import walk, base_name, REPO
from .data import *
from .data2 import calls_in
from ..terms import to_lin

RB = 'lp::data::RawBytes'
COPIES = ('memcpy', 'memmove', 'copy_n', 'copy')
BOUNDED = {'readlink': (1, 2), 'getcwd': (0, 1), 'snprintf': (0, 1), 'gethostname': (0, 1), 'fgets': (0, 1), 'strftime': (0, 1), 'zmq_recv': (1, 2), 'read': (1, 2), 'recv': (1, 2),
           'strncpy': (0, 2), 'memset': (0, 2)}
UNBOUNDED = ('strcpy', 'strcat', 'strncat', 'sprintf', 'vsprintf', 'gets', 'scanf', 'sscanf')


class BytesPolicy(Policy):
    """messages are opaque: how they become bytes is decided elsewhere"""
    opaque = (MSG + '::SerializeToBytes', MSG + '::Deserialize', DG + '::', RAW + '::', 'lp::log::', 'lp::bus::')


def copy_of(e):
    """(destination, source, number of bytes) of a copying call, or None"""
    n = base_name(e.q)
    a = [strip_own(unmoved(t)) for t in e.args or () if t is not None]
    if n in ('memcpy', 'memmove') and len(a) == 3:
        return a[0], a[1], a[2]
    if n == 'copy_n' and e.q.startswith('std::') and len(a) == 3:
        return a[2], a[0], a[1]
    if n == 'copy' and e.q.startswith('std::') and len(a) == 3:
        b, o = place(a[0])
        b2, o2 = place(a[1])
        if b == b2:
            return a[2], a[0], sub(o2, o)
    return None


def place(t):
    """pointer -> (what it points into, offset)"""
    t = strip_own(unmoved(t))
    while t[0] == 'conv':
        t = t[2]
    if t[0] == 'addr':
        root, path = t[1]
        if len(path) == 1 and isinstance(path[0], tuple) and path[0][0] == 'at':
            return ('addr', (root, ())), path[0][1]
        return t, C(0)
    if t[0] in ('padd', 'ptradd'):
        b, o = place(t[1])
        return b, add(o, t[2])
    if t[0] == 'lin':
        ps = [y for y, k in t[2] if k == 1 and (y[0] == 'addr' or y[0] == 'p' or y[0] == 'fld' or y[0] == 'res')]
        for y in ps:
            rest = sub(t, y)
            if y[0] == 'addr' or not contains(rest, lambda z: z[0] == 'addr'):
                b, o = place(y)
                return b, add(o, rest)
    return t, C(0)


BYTES = {}


class Bytes:
    """a byte buffer class: its pointer and its size"""

    def __init__(self, c):
        self.c = c
        fs = c.prog.fields(RB)
        p = [g['n'] for g in fs if g['t'].rstrip().endswith('*') or 'unique_ptr' in g['t'] or 'shared_ptr' in g['t']]
        s = [g['n'] for g in fs if re.match(r'^(unsigned long|unsigned int|std::size_t|size_t|unsigned long long|int|long)$', g['t'])]
        self.raw = len(p) == 1 and len(s) == 1
        if self.raw:
            self.p, self.n = p[0], s[0]
        self.owned = self.raw and not [g['t'] for g in fs if g['n'] == self.p][0].rstrip().endswith('*')

    def state(self, x, root=THIS):
        v = x.store.get(root, ('init', root))
        return strip_own(unmoved(path_get(v, (self.p,)))), unmoved(path_get(v, (self.n,)))


def arrays(x):
    r = {}
    for e in x.events:
        if e.k == 'new' and e.n is not None and e.at in ('char', 'unsigned char', 'signed char', 'uint8_t', 'std::byte'):
            r[e.root] = (unmoved(e.n), e)
    return r


def segments(x, root):
    """what the copies of path x put into the array at root: [(offset, source, length)] in order of their offset"""
    r = []
    for e in x.events:
        if e.k == 'loop':
            g = loop_copy(e)
            if g and g[0][0] == 'addr' and g[0][1][0] == root:
                r.append(g[1:] + (e,))
        if e.k != 'call' or e.recv is not None:
            continue
        cp = copy_of(e)
        if cp:
            b, o = place(cp[0])
            if b[0] == 'addr' and b[1][0] == root:
                r.append((o, strip_own(unmoved(cp[1])), unmoved(cp[2]), e))
    return r


def loop_copy(e):
    """a loop that copies byte by byte -> (what it writes into, offset, source, length)"""
    if not e.full or e.exits or e.kind != 'count':
        return None
    ind = ('ind', e.id)
    if len(e.guard) != 1 or len(e.guard[0]) != 1:
        return None
    r = None
    for bd in e.bodies:
        ws = [y for y in bd['events'] if y.k == 'acc' and y.rw == 'w' and y.loc and len(y.loc[1]) and isinstance(y.loc[1][-1], tuple) and y.loc[1][-1][0] == 'at']
        if bd['kind'] not in ('next', 'n', 'c', 'continue') or len(ws) != 1:
            return None
        w = ws[0]
        v = strip_own(unmoved(w.val))
        while v[0] == 'conv':
            v = v[2]
        if v[0] == 'init' and v[1][0] == 'deref':
            s, so = place(v[1][1])
        elif v[0] == 'at':
            s, so = v[1], v[2]
            if s[0] == 'init' and s[1][0] == 'deref':
                s = s[1][1]
            else:
                s = ('addr', (s, ()))
        else:
            return None
        off = sub(w.loc[1][-1][1], ind)
        if so != ind or contains(off, lambda y: y == ind) or contains(s, lambda y: y == ind):
            return None
        g = (('addr', (w.loc[0], ())), off, strip_own(unmoved(s)), e.bound)
        if r not in (None, g):
            return None
        r = g
    return r


def tiles(segs, n, want):
    """the segments, put end to end, are the wanted (source, length) and fill n"""
    pos = C(0)
    left = list(segs)
    for s, ln in want:
        if ln == C(0):
            continue
        m = [g for g in left if g[0] == pos and g[1] == s and g[2] == ln]
        if not m:
            return 'nothing copies %s bytes of %s to %s' % (show(ln), show(s), show(pos))
        left.remove(m[0])
        pos = add(pos, ln)
    if left:
        return 'also copies %s bytes to %s' % (show(left[0][2]), show(left[0][0]))
    if pos != n:
        return 'room for %s bytes, %s are put there' % (show(n), show(pos))
    return None


def c18(c):
    b = Bytes(c)
    BYTES.clear()
    if b.raw:
        BYTES.update(p=b.p, n=b.n)
    if c.ob(b.raw, 'a byte buffer has a pointer to its bytes and their number', c.one(RB + '::GetSize', 0)):
        buffer_ops(c, b)
    sites(c)


def buffer_ops(c, b):
    cls = c.prog.classes[RB]
    old = ('fld', ('init', THIS), b.p)
    n0 = ('fld', ('init', THIS), b.n)
    if not b.owned:
        user = [m for m in cls['methods'] if (m.get('copy') or m.get('casg')) and not m.get('deleted') and not m.get('implicit')]
        dead = [m for m in cls['methods'] if (m.get('copy') or m.get('casg')) and m.get('deleted')]
        implicit = cls['copyctor_implicit'] or cls['copyasg_implicit']
        c.ob(not implicit and (len(dead) + len(user)) >= 2 or cls['has_user_movector'] and not user, 'two byte buffers never own the same bytes', (cls['file'], cls['l'], RB), 'a byte buffer can be copied member by member')
        for m in user:
            f = c.prog.funcs.get(m['id'])
            if f and f.get('defaulted') or m.get('defaulted'):
                c.ob(False, 'two byte buffers never own the same bytes', (cls['file'], m['l'], RB), 'a byte buffer can be copied member by member')
                continue
            src = ('fld', ('init', ('deref', ('p', 0))), b.p)
            for x in c.run(f, BytesPolicy()):
                if x.kind == 'return':
                    c.ob(b.state(x)[0] != src, 'two byte buffers never own the same bytes', f, 'the copy refers to the bytes of the other')
    for f in c.prog.fn(RB + '::RawBytes'):
        if f.get('defaulted') or len(f['params']) == 1 and 'RawBytes' in f['pt'][0]:
            continue
        for x in c.run(f, BytesPolicy()):
            if x.kind == 'throw':
                c.ob(raised(x, 'lp::exceptions::ArgumentNullException') and len(f['params']) == 2 and x.facts.get(('null', ('p', 0))) is True, 'bytes are refused only when there are none, with the null-argument error', x.val.src, outcome(x))
                ar = arrays(x)
                gone = {strip_own(e.ptr)[1][0] for e in x.events if e.k == 'delete' and strip_own(e.ptr)[0] == 'addr'}
                c.ob(all(r in gone for r in ar), 'a refused operation keeps no memory', f)
                continue
            p, n = b.state(x)
            if len(f['params']) == 2:
                c.ob(x.facts.get(('null', ('p', 0))) is False, 'no bytes are refused with the null-argument error', f, 'copies from a pointer that may be null')
                put_bytes(c, b, f, x, p, n, [(('p', 0), ('p', 1))])
            else:
                c.ob(p == NULL and n == C(0), 'a new byte buffer is empty', f, '%s bytes at %s' % (show(n), show(p)))
    f = c.one(RB + '::Append', 2)
    for x in c.run(f, BytesPolicy()):
        none = x.facts.get(('null', old))
        if x.kind == 'throw':
            c.ob(x.facts.get(('null', ('p', 0))) is True and b.state(x) == (old, n0), 'appending does not fail', x.val.src, outcome(x))
            continue
        p, n = b.state(x)
        if p == old and n == n0:
            # nothing to append
            some = x.facts.get(('eq0', ('p', 1))) is True or x.facts.get(('null', ('p', 0))) is True
            c.ob(some, 'appended bytes are put behind the bytes already there', f, 'a path appends nothing')
            continue
        zero = is_zero(x, n0)
        want = [(('p', 0), ('p', 1))]
        if not (none is True or zero):
            want = [(old, n0)] + want
        put_bytes(c, b, f, x, p, n, want)
        if none is not True and not b.owned:
            released(c, x, f, old)
    for f in c.prog.fn(RB + '::~RawBytes'):
        for x in c.run(f, BytesPolicy()):
            if x.facts.get(('null', old)) is not True and not b.owned:
                released(c, x, f, old)
    if not b.owned and not c.prog.fn(RB + '::~RawBytes'):
        c.ob(False, 'the bytes of a buffer are released once, as they were allocated', (cls['file'], cls['l'], RB), 'no destructor')
    # whatever a buffer gives out is what it holds
    for nm, want in (('GetContent', old), ('GetSize', n0)):
        f = c.one(RB + '::' + nm, 0)
        for x in c.run(f, BytesPolicy()):
            c.ob(x.kind == 'return' and strip_own(unmoved(x.val)) == want, 'a byte buffer gives its bytes and their number', f, outcome(x))
            c.ob(b.state(x) == (old, n0), 'looking at a byte buffer changes nothing', f)


def is_zero(x, n):
    return x.facts.get(('eq0', n)) is True or x.facts.get(('lt0', sub(C(0), n))) is False


def put_bytes(c, b, f, x, p, n, want):
    ar = arrays(x)
    root = p[1][0] if p[0] == 'addr' and p[1][1] == () else None
    what = 'the bytes of a buffer are copies, all of them, in room for exactly that many'
    if not c.ob(root in ar, what, f, 'the bytes are at %s' % show(p)):
        return
    cap, at = ar[root]
    total = C(0)
    for _, ln in want:
        total = add(total, ln)
    c.ob(n == total, 'a byte buffer knows how many bytes it holds', f, '%s instead of %s' % (show(n), show(total)))
    c.ob(cap == total, what, at, 'room for %s' % show(cap))
    why = tiles(segments(x, root), total, want)
    c.ob(why is None, what, at, why or '')
    # nothing is copied from memory that was released before
    dead = []
    for e in x.events:
        if e.k == 'delete':
            dead.append(strip_own(unmoved(e.ptr)))
        elif e.k == 'call' and e.recv is None:
            cp = copy_of(e)
            if cp:
                c.ob(place(cp[1])[0] not in dead and place(cp[0])[0] not in dead, 'released memory is not used', e)
    for d in dead:
        c.ob(d[0] != 'addr' or d[1][0] != root, 'released memory is not used', f, 'the new bytes are released')
    for r, (cp, e) in ar.items():
        if r != root:
            c.ob(any(d[0] == 'addr' and d[1][0] == r for d in dead), 'every allocated byte is released', e)


def released(c, x, f, old):
    ds = [e for e in x.events if e.k == 'delete' and strip_own(unmoved(e.ptr)) == old]
    c.ob(len(ds) == 1 and bool(ds[0].arr), 'the bytes of a buffer are released once, as they were allocated', ds[0] if ds else f, '%d times' % len(ds))


# ------------------------------------------------------------ all copies into raw memory
def in_scope(f):
    return f['file'].startswith(os.path.join(REPO, '')) and '/platformspecific/windows/' not in f['file'] and '/test/' not in f['file']


def sites(c):
    todo = {}
    for f in c.prog.funcs.values():
        if not in_scope(f) or f['q'].startswith(RB + '::'):
            continue
        for n in walk(f.get('body')):
            if n.get('k') == 'call' and n.get('f'):
                q = n['f']['q']
                b = base_name(q)
                if q.startswith('std::') and b not in ('memcpy', 'memmove', 'memset', 'strcpy', 'strcat', 'strncpy', 'snprintf', 'sprintf'):
                    continue
                if '::' in q and not q.startswith('std::'):
                    continue
                if b in COPIES or b in BOUNDED or b in UNBOUNDED:
                    todo.setdefault(f['id'], (f, set()))[1].add((b, n['l']))
    where = {}
    for f, ss in todo.values():
        for b, l in ss:
            where[(b, l, f['file'])] = f
    done = set()
    seen = set()
    for f, root in in_context(c, [f for f, _ in todo.values()]):
        if not root and f['id'] in seen:
            continue
        it = Check('C18', '', '')
        it.prog = c.prog
        xs = it.run(f, BytesPolicy())
        seen |= it.funcs
        c.take(it)
        for x in xs:
            for e in calls_in(x.events):
                k = (base_name(e.q), e.src[1], e.src[0])
                if k in where and '::' not in e.q.replace('std::', ''):
                    done.add(k)
                    one_site(c, x, e)
            for e in x.events:
                if e.k == 'index':
                    one_index(c, x, e, f)
    for k, f in where.items():
        c.ob(k in done, 'every copy into raw memory is looked at', (k[2], k[1], f['q']), k[0])


def in_context(c, fs):
    """the functions to run so that all of fs are seen with the arguments they get: what only its own class or
    file can call is looked at where it is called, and (False) on its own if no call is followed into it"""
    callers = {}
    taken = set()
    for g in c.prog.funcs.values():
        called = set()
        for n in walk(g.get('body')):
            if n.get('k') == 'call' and n.get('f') and n['f'].get('id'):
                called.add(n['f']['id'])
            elif n.get('k') == 'lambda':
                called.add(n['fn'])
            elif n.get('k') == 'ref' and n.get('dk') == 'func':
                taken.add(n.get('fn') or n.get('q'))
        for i in called:
            if i != g['id']:
                callers.setdefault(i, []).append(g)
    r, seen, todo = [], set(), list(fs)
    while todo:
        f = todo.pop(0)
        if f['id'] in seen:
            continue
        seen.add(f['id'])
        cs = callers.get(f['id'], [])
        local = f.get('lam') or f.get('acc') == 2 and not f.get('virt') or not f.get('cls') and f['file'].endswith('.cpp') and all(g['file'] == f['file'] for g in cs) and not f.get('externc') and f['q'] != 'main'
        if cs and local and f['id'] not in taken and f['q'] not in taken:
            todo += cs
            r.append((f, False))
        else:
            r.append((f, True))
    return r[::-1]


def array_len(e, i):
    """the number of bytes of the local array argument i of e is"""
    a = e.nodes['a'][i] if e.nodes and i < len(e.nodes.get('a', [])) else None
    for n in walk(a):
        m = re.match(r'^(?:const )?(?:unsigned |signed )?char\s?\[(\d+)\]$', n.get('t') or '')
        if n.get('k') in ('ref', 'mem') and m:
            return int(m.group(1))
    return None


def upper(x, t):
    """the largest value t can have, or None"""
    t = unmoved(t)
    while t[0] == 'conv':
        t = t[2]
    if is_const(t):
        return t[1]
    if t[0] == 'min':
        u = [upper(x, y) for y in t[1:3]]
        u = [y for y in u if y is not None]
        return min(u) if u else None
    if t[0] == 'res' and base_name(t[1]) == 'readlink':
        u = upper(x, t[2][-1])
        return known(x, t, known(x, t, u))
    if t[0] == 'lin':
        s = t[1]
        for y, k in t[2]:
            u = upper(x, y)
            if u is None or k < 0:
                return None
            s += k * u
        return s
    return known(x, t, None)


def known(x, t, u):
    """the bound u of t, with what was asked about t on this path"""
    for a, v in x.facts.items():
        if a[0] not in ('lt0', 'eq0'):
            continue
        b, d = to_lin(a[1])
        d = {(k[2] if k[0] == 'conv' else k): n for k, n in d.items()}
        if d not in ({t: 1}, {t: -1}):
            continue
        n = d[t]
        if a[0] == 'eq0':
            m = -b * n
            m = m if v else m - 1 if u == m else None
        elif n == 1:
            m = -b - 1 if v else None              # t + b < 0
        else:
            m = None if v else b                   # not (b - t < 0)
        if m is not None and (u is None or m < u):
            u = m
    return u


WHAT = 'bytes are only written where there is room for them'


def one_site(c, x, e):
    b = base_name(e.q)
    if b in UNBOUNDED:
        c.ob(False, WHAT, e, '%s does not know the room there is' % b)
        return
    if b in BOUNDED:
        di, ni = BOUNDED[b]
        n = upper(x, e.args[ni])
        cap = array_len(e, di)
        if b == 'memset' and cap is None:
            ts = [y.get('t') for y in walk(e.nodes['a'][di]) if y.get('k') in ('ref', 'mem')]
            sz = [y for y in walk(e.nodes['a'][ni]) if y.get('k') == 'sizeof']
            at = sz[0].get('at') or sz[0].get('ot') if sz else None
            ok = bool(ts) and bool(sz) and (at is None or at.split('::')[-1].replace('struct ', '') == ts[0].split('::')[-1].replace('struct ', ''))
            c.ob(ok, WHAT, e, 'sets %s in %s' % (at, ts))
            return
        v = value_room(x, e, di)
        if cap is None and v is not None:
            c.ob(unmoved(e.args[ni]) == v, WHAT, e, 'up to %s bytes into room for %s' % (show(e.args[ni]), show(v)))
            return
        c.ob(cap is not None and n is not None and n <= cap, WHAT, e, 'up to %s bytes into room for %s' % (show(e.args[ni]), cap))
        return
    cp = copy_of(e)
    if not c.ob(cp is not None, WHAT, e, 'what is copied is not known'):
        return
    dst, src, n = cp
    for t, w in ((dst, WHAT), (src, 'bytes are only read from where they are')):
        r = room(x, e, t)
        ok = r is not None and (r == n or is_const(sub(r, n)) and sub(r, n)[1] >= 0)
        c.ob(ok, w, e, '%s bytes, but %s are there' % (show(n)[:80], show(r)[:80] if r else 'an unknown number'))


def value_room(x, e, i):
    return room(x, e, strip_own(unmoved(e.args[i])))


def before(x, e):
    for y in x.events:
        if y is e:
            return
        yield y
    # an event of a loop body: everything on the path may have come before


def room(x, e, t):
    """how many bytes there are at t"""
    base, off = place(t)
    if base[0] == 'addr' and base[1][0] in arrays(x):
        return sub(arrays(x)[base[1][0]][0], off)
    for y in [base] if base[0] == 'res' else []:
        if base_name(y[1]) == 'zmq_msg_data':
            r = None
            m = unmoved(y[2][-1])
            for z in before(x, e):
                if z.k == 'call' and base_name(z.q) == 'zmq_msg_init_size' and z.args and unmoved(z.args[0]) == m:
                    r = unmoved(z.args[1])
            for z in calls_in(x.events):
                if r is None and z.k == 'call' and base_name(z.q) == 'zmq_msg_size' and unmoved(z.args[-1]) == m:
                    r = z.res
            return sub(r, off) if r is not None else None
        if base_name(y[1]) == 'GetContent':
            return ('res', y[1].replace('GetContent', 'GetSize'), y[2]) + y[3:]
    if base[0] == 'fld':
        if base[2] == BYTES.get('p'):
            return sub(('fld', base[1], BYTES['n']), off)
    if base[0] == 'p':
        f = e.src
        return None
    return None


def nonneg(x, i):
    if is_const(i):
        return i[1] >= 0
    for t, v in x.facts.items():
        if t[0] == 'lt0':
            k, d = to_lin(t[1])
            if list(d) == [i] and (v and d[i] == -1 and k >= -1 or not v and d[i] == 1 and k <= 0):
                return True
        if t[0] == 'eq0' and not v and i[0] == 'res' and base_name(i[1]) == 'readlink':
            k, d = to_lin(t[1])
            if list(d) == [i] and k == d[i]:      # -1 is the only negative value it has
                return True
    return False


def one_index(c, x, e, f):
    """a position in a local array"""
    if e.loc is None or e.loc[0][0] != 'v':
        return
    cap = None
    for n in walk(f.get('body')):
        m = re.match(r'^(?:const )?(?:unsigned |signed )?char\s?\[(\d+)\]$', n.get('t') or '')
        if m and n.get('n') == e.loc[0][-1]:
            cap = int(m.group(1))
    if cap is None:
        return
    i = unmoved(e.i)
    u = upper(x, i)
    low = nonneg(x, i)
    c.ob(u is not None and u < cap and low, WHAT, e, 'position %s of %d' % (show(i), cap))
