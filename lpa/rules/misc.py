"""Rules about identifiers and about texts made of values."""
from .host import *
from .data import Raw, RAW, DG, DATA, DB, MSG, KINDS, TYPES, DataPolicy

UUID = 'lp::utilities::Uuid'


# ---------------------------------------------------------------- unrolling loops
def fold(t):
    """t with constants computed"""
    if not isinstance(t, tuple):
        return t
    t = tuple(fold(x) for x in t)
    if not t:
        return t
    k = t[0]
    if k == 'lin' and len(t) == 3:
        r = C(t[1])
        for x, n in t[2]:
            r = add(r, mul(x, C(n)))
        return r
    if k == 'size' and len(t) == 2:
        return size(t[1])
    if k == 'cat':
        r = C('')
        for x in t[1]:
            r = cat(r, x)
        return r
    return t


def verdict(a):
    """whether an atom holds, or None"""
    k = a[0]
    if k in ('eq0', 'lt0') and is_const(a[1]) and not isinstance(a[1][1], str) and a[1][1] is not None:
        return int(a[1][1]) == 0 if k == 'eq0' else int(a[1][1]) < 0
    if k == 'b' and is_const(a[1]):
        return bool(a[1][1])
    if k == 'eq' and len(a) == 3:
        if a[1] == a[2]:
            return True
        if is_const(a[1]) and is_const(a[2]):
            return False
    if k == 'empty' and is_const(a[1]) and isinstance(a[1][1], str):
        return a[1][1] == ''
    if k == 'lt0' and a[1][0] == 'size':
        return False
    return None


class Unroll:
    """what a path does when its loops over a container with n elements are run one
    iteration after the other"""

    def __init__(self, conts, n):
        self.n = n
        self.conts = conts
        self.env = {('size', c): C(n) for c in conts}

    def sub(self, t):
        for a, b in self.env.items():
            t = replace(t, a, b)
        return fold(t)

    def holds(self, facts):
        for a, v in facts:
            w = verdict(self.sub(a))
            if w is not None and w != v:
                return False
        return True

    def rounds(self, l, visit):
        """calls visit(body, k) for each iteration; False if the loop cannot be followed"""
        if l.cont not in self.conts or l.kind not in ('foreach', 'count') or not l.full or l.exits - {'cond', None}:
            return False
        if l.start not in (C(0), None) or l.step not in (1, C(1), None):
            return False
        cur = {('lv', l.id, loc): self.sub(v) for loc, v in (l.pre or {}).items()}
        for loc, (v, s) in (l.induct or {}).items():
            cur[('lv', l.id, loc)] = self.sub(v)
        out = None
        for k in range(self.n):
            self.env[('ind', l.id)] = C(k)
            self.env.update(cur)
            live = [b for b in l.bodies if self.holds(b['facts'])]
            got = []
            for b in live:
                r = visit(b, k)
                if r is None:
                    return False
                got.append((r, tuple(sorted(((loc, self.sub(v)) for loc, v in b['upd'].items()), key=repr))))
            if len(set(got)) != 1:
                return False
            yield got[0][0]
            for loc, v in got[0][1]:
                cur[('lv', l.id, loc)] = v
        self.env.pop(('ind', l.id), None)
        self.env.update(cur)
        return True


def bound_of(x, conts):
    """how many elements decide for any number of them: beyond the constants elements are counted with"""
    m = 0
    for e in flatten(x.events):
        if e.k != 'loop' or e.cont not in conts:
            continue
        for b in e.bodies:
            for a, v in b['facts']:
                if contains(a, lambda t: t == ('ind', e.id) or t == ('size', e.cont) or t[0] == 'lv'):
                    m = max([m] + [abs(t[1]) for t in subterms(a) if t[0] in ('c', 'lin') and type(t[1]) is int])
    for a, v in x.facts.items():
        if contains(a, lambda t: t[0] == 'size' and t[1] in conts):
            m = max([m] + [abs(t[1]) for t in subterms(a) if t[0] in ('c', 'lin') and type(t[1]) is int])
    return m + 8


# ------------------------------------------------------------------- C31
class Texts:
    def __init__(self, c):
        self.c = c
        self.r = Raw(c)
        self.todo = []
        self.seen = set()

    def pieces(self, x, evs, out, u):
        """what a path writes to out, or None where that cannot be told"""
        r = []
        for e in evs:
            if e.k == 'stream' and e.op == '<<' and e.loc == out:
                v = u.sub(unmoved(e.val))
                if v[0] == 'func' or v[0] == 'c':
                    class E:
                        pass
                    o = E()
                    o.k, o.val, o.vt = 'stream', v, e.vt
                    r += written(x, o)
                else:
                    r += parts(x, v)
            elif e.k == 'stream' and e.loc == out:
                r.append(('?', 'read'))
            elif e.k == 'call' and (e.rloc == out or out in (e.alocs or ())):
                r += self.called(x, e, out, u)
            elif e.k == 'loop' and self.writes(e, out):
                got = []
                it = u.rounds(e, lambda b, k: self.round(x, b, out, u))
                try:
                    while True:
                        got += list(next(it))
                except StopIteration as s:
                    if s.value is not True:
                        return None
                r += got
            elif e.k == 'loop' and e.cont in u.conts:
                it = u.rounds(e, lambda b, k: ())
                for _ in it:
                    pass
        return joined(r)

    def round(self, x, b, out, u):
        p = self.pieces(x, b['events'], out, u)
        return tuple(p) if p is not None else None

    @staticmethod
    def writes(e, out):
        for y in flatten([e]):
            if y.k == 'stream' and y.loc == out or y.k == 'call' and (y.rloc == out or out in (y.alocs or ())):
                return True
        return False

    def called(self, x, e, out, u):
        n = base_name(e.q.split('<')[0] if 'operator' not in e.q else e.q)
        loc = lambda l: None if l is None else (u.sub(l[0]), u.sub(l[1]))
        if e.rloc == out:
            if n in ('put', 'write'):
                return [u.sub(p) if isinstance(p, tuple) else p for p in written(x, e)]
            if n in ('flush', 'good', 'fail', 'rdstate', 'operator bool', 'width', 'precision') and not e.args:
                return []
            return [('?', e.q)]
        if base_name(e.q) == 'ToString' and e.rloc is not None:
            return [('value', loc(e.rloc))]
        g = self.c.prog.funcs.get(e.id) if e.repo else None
        others = [l for l in (e.alocs or ()) if l != out] + ([e.rloc] if e.rloc is not None else [])
        if g is not None and len(others) == 1 and len(e.args) + (e.rloc is not None) == 2:
            self.todo.append(g)
            return [('shown', loc(others[0]))]
        return [('?', e.q)]


def param_loc(f, ty):
    """where f has its operand of this class"""
    for i, t in enumerate(f['pt']):
        if t.replace('const ', '').rstrip(' &') == ty and t.endswith('&'):
            return ('pref', i)
    if f.get('cls') == ty and not f.get('static'):
        return THIS
    return None


def stream_loc(f):
    for i, t in enumerate(f['pt']):
        if t.startswith('std::basic_ostream<char') and t.endswith('&'):
            return (('pref', i), ())
    return None


def same_stream(x, out):
    v = x.val
    return v is not None and (getattr(v, 'root', None), getattr(v, 'path', None)) == out


def type_facts(x, ptr, k):
    """could this path be taken by a value of type k"""
    for a, v in x.facts.items():
        for t in subterms(a):
            if t[0] == 'dyncast' and strip_own(unmoved(t[2])) == ptr and t[1].startswith(DATA + '<'):
                is_k = is_type_name(t[1][len(DATA) + 1:], k)
                if a == ('null', t) and v != (not is_k):
                    return False
    return True


def is_type_name(t, k):
    t = t.rstrip('>').strip()
    return t.startswith('std::basic_string<char') or t == 'std::string' if k == 'string' else t == TYPES[k]


def texts_of(t, f, root, kind, n_of, expect, what):
    """the ways through f for a datagram of this kind write what is expected"""
    c, r = t.c, t.r
    out = stream_loc(f)
    i = r.init(kind, root)

    def pre(st, fr):
        r.put(st, root, kind)
    k = 0
    for x in c.run(f, DataPolicy(), pre=pre):
        if x.kind != 'return':
            c.ob(False, 'showing a datagram does not fail', x.val.src if x.kind == 'throw' else f)
            continue
        conts = {i[r.list], i[r.dict]} - {EMPTY}
        for n in range(bound_of(x, conts) if conts else 1):
            if n > 40:
                c.ob(False, what, f, 'counts elements in a way that cannot be followed')
                break
            u = Unroll(conts, n)
            if not u.holds(x.facts.items()) or any(a == ('empty', q) and v != (n == 0) for q in conts for a, v in x.facts.items()):
                continue
            for ty in (TYPES if kind == 'Value' else (None,)):
                if ty and not type_facts(x, i[r.value], ty):
                    continue
                k += 1
                got = t.pieces(x, x.events, out, u)
                want = joined(expect(i, n, ty))
                if not c.ob(got == want, what, f, 'a %s%s is shown as %s' % (ty or '', kind.lower() + (' of %d' % n if conts else ''), plain(got))):
                    break
        if f['rt'].startswith('std::basic_ostream') and f['rt'].endswith('&'):
            c.ob(same_stream(x, out), 'showing a datagram gives the stream back', f)
    c.ob(k > 0, what, f, 'no way through for a %s' % kind.lower())


def plain(ps):
    if ps is None:
        return 'something that cannot be followed'
    return ' '.join(p if isinstance(p, str) else '<%s %s>' % (p[0], show_loc(p[1]) if len(p) > 1 and isinstance(p[1], tuple) and len(p[1]) == 2 and isinstance(p[1][1], tuple) else show(p)) for p in ps)[:250] or 'nothing'


def at_ptr(p):
    return (('deref', p), ())


def expected(r):
    def shown(i, n, ty, kind):
        if kind == 'Empty':
            return ['null']
        if kind == 'Value':
            q = ['"'] if ty == 'string' else []
            return q + [('value', at_ptr(i[r.value]))] + q
        res = ['[' if kind == 'List' else '{']
        for k in range(n):
            if k:
                res.append(', ')
            if kind == 'List':
                res.append(('shown', at_ptr(sel_at(i[r.list], C(k)))))
            else:
                key = ('key', i[r.dict], C(k))
                res += [key, ': ', ('shown', at_ptr(sel_at(i[r.dict], key)))]
        return res + [']' if kind == 'List' else '}']
    return shown


def printers(c, cls):
    r = []
    for f in c.prog.funcs.values():
        if in_src(c, f) and base_name(f['q']).startswith('operator<<') and stream_loc(f) and len(f['params']) == 2 and param_loc(f, cls):
            r.append(f)
    return r


def c31(c):
    t = Texts(c)
    r = t.r
    if not r.distinct():
        return
    exp = expected(r)
    fs = printers(c, RAW)
    if not c.ob(len(fs) == 1, 'datagrams can be written to a stream', fs[0] if fs else None):
        return
    todo = [(fs[0], None)]
    done = set()
    texts = 'an empty datagram is shown as null, a value as its text, strings in quotes, lists and dictionaries with all elements in order'
    for cls in (DG, MSG):
        gs = printers(c, cls)
        if c.ob(len(gs) == 1, 'datagrams and messages can be written to a stream', gs[0] if gs else None, cls):
            todo.append((gs[0], cls))
    while todo:
        f, cls = todo.pop(0)
        if f['id'] in done:
            continue
        done.add(f['id'])
        c.visited = getattr(c, 'visited', set()) | {f['id']}
        cls = cls or RAW
        root = param_loc(f, cls)
        if not c.ob(root is not None and stream_loc(f) is not None, texts, f, 'its operands are not known'):
            continue
        pre, inner = [], root
        if cls != RAW:
            i0 = ('p', root[1])
            if cls == MSG:
                s, tp, dg = message_fields(c)
                pre = ['[', ('fld', i0, s), ' to ', ('fld', i0, tp), ']: ']
                i0 = ('fld', i0, dg)
            inner = ('deref', ('fld', i0, r.inner))
        for k in KINDS:
            texts_of(t, f, inner, k, None, lambda i, n, ty, k=k: pre + exp(i, n, ty, k), texts if cls != MSG else 'a message is shown with its sender, its topic and its datagram')
        for g in t.todo:
            if g['id'] not in done:
                todo.append((g, RAW))
        t.todo = []
    n = 0
    for f in c.prog.methods.get(DATA, []):
        if base_name(f['q']) != 'ToString':
            continue
        n += 1
        fl = [g['n'] for g in c.prog.fields(DATA)]
        u = Unroll(set(), 0)
        for x in c.run(f, DataPolicy()):
            got = t.pieces(x, x.events, stream_loc(f), u) if x.kind == 'return' and stream_loc(f) else None
            c.ob(got == [('fld', ('init', THIS), fl[0])] and len(fl) == 1, 'a value is shown as its text', f, plain(got))
    c.ob(n >= len(TYPES), 'values of each type can be shown', None, str(n))


def message_fields(c):
    """sender, topic and datagram of a message, told by its constructor"""
    f = [g for g in c.prog.methods.get(MSG, []) if g.get('isctor') and len(g['params']) == 3][0]
    x = [y for y in c.run(f, DataPolicy()) if y.kind == 'return'][0]
    r = []
    for i in range(2):
        r += [g['n'] for g in c.prog.fields(MSG) if unmoved(path_get(x.store[THIS], (g['n'],))) == ('p', i)]
    r += [g['n'] for g in c.prog.fields(MSG) if g['t'].endswith('Datagram')]
    if len(r) != 3:
        raise AnalysisError('the members of %s are not a sender, a topic and a datagram' % MSG)
    return r


# ------------------------------------------------------------------- C25
class UuidPolicy(Policy):
    opaque_default = ()


WANTED_BITS = 96
SOURCE = 'std::random_device'


def engine_root(t, pre=()):
    """the state an engine or distribution was in before it was used"""
    pre = dict(pre)
    while True:
        if t in pre:
            t = pre.pop(t)
            continue
        if t[0] == 'out' and len(t) == 4:
            t = t[3]
        elif t[0] == 'mut' and len(t) >= 4 and t[1] in ('operator()', 'discard', 'reset'):
            t = t[2]
        elif t[0] == 'movedfrom':
            t = t[1]
        else:
            return t


def cls_of(t):
    return t[1].split('<')[0] if t[0] in ('zero', 'new') and isinstance(t[1], str) else ''


def log2(n):
    return n.bit_length() - 1 if n > 0 else 0


class Bits:
    """how many random bits of the system get into a value, by the draws they come from"""

    def __init__(self, x):
        self.x = x
        self.events = list(flatten(x.events))
        self.pre = {('lv', l.id, loc): v for l in self.events if l.k == 'loop' for loc, v in (l.pre or {}).items()}

    def root(self, t):
        return engine_root(unmoved(t), self.pre)

    def draw(self, t):
        """(engine, bits) of a draw, or None"""
        q = t[1].split('<')[0].replace('::operator()', '') if t[0] == 'res' and '::operator()' in t[1] else None
        if q is None or not q.startswith('std::') or not t[2]:
            return None
        q = t[1][:t[1].rindex('::operator()')].split('<')[0]
        if q.endswith('_distribution'):
            if q != 'std::uniform_int_distribution' or len(t[2]) < 2:
                return self.root(t[2][-1]), 0
            d = self.root(t[2][0])
            n = 31
            if d[0] == 'new' and len(d) > 2 and d[2]:
                a = [v[1] if is_const(v) and type(v[1]) is int else None for v in d[2]]
                n = log2(a[1] - a[0] + 2) if len(a) == 2 and None not in a and a[1] > a[0] else 0
            return self.root(t[2][1]), n
        if q == SOURCE:
            return self.root(t[2][0]), 32
        if q.endswith(('_engine', '_generator')) or 'mersenne' in q or 'linear_congruential' in q:
            return self.root(t[2][0]), 32
        return None

    def limit(self, d, n):
        r, left = {}, n
        for k, v in sorted(d.items(), key=repr):
            b = min(v, left)
            if b > 0:
                r[k] = b
                left -= b
        return r

    def of(self, t):
        """{draw: bits} of an integer or text"""
        t = unmoved(t)
        k = t[0]
        if k == 'res':
            d = self.draw(t)
            if d is not None:
                return {(d[0], t[3] if len(t) > 3 else t[2]): d[1]}
            if base_name(t[1]) in ('to_string', 'str', 'c_str', 'data') and len(t[2]) == 1:
                return self.text(t[2][0]) if base_name(t[1]) != 'to_string' else self.of(t[2][0])
            return {}
        if k == 'lin' and len(t[2]) == 1:
            return self.of(t[2][0][0]) if abs(t[2][0][1]) == 1 else {}
        if k == 'op' and len(t) == 4:
            a, b = (t[2], t[3])
            if is_const(a) and t[1] in ('&', '|', '^'):
                a, b = b, a
            if is_const(b) and type(b[1]) is int:
                n, m = b[1], self.of(a)
                if t[1] == '&':
                    return self.limit(m, bin(n & 0xffffffffffffffff).count('1'))
                if t[1] == '%':
                    return self.limit(m, log2(n))
                if t[1] == '|':
                    if a[0] == 'op' and a[1] == '&' and any(is_const(z) and type(z[1]) is int and z[1] & n == 0 for z in a[2:]):
                        return m
                    return self.limit(m, max(0, sum(m.values()) - bin(n & 0xffffffffffffffff).count('1')))
                if t[1] == '^':
                    return m
                if t[1] == '>>':
                    return self.limit(m, max(0, sum(m.values()) - n))
            return {}
        if k == 'at' and len(t) == 3:
            s = t[1]
            while s[0] in ('deref', 'init'):
                s = s[1]
            if is_const(s) and isinstance(s[1], str):
                return self.limit(self.of(t[2]), log2(len(set(s[1]))))
        if k == 'cast' and isinstance(t[-1], tuple):
            return self.of(t[-1])
        return {}

    def text(self, t):
        r = {}
        for p in parts(self.x, t):
            if isinstance(p, str):
                continue
            for k, v in self.piece(p).items():
                r[k] = max(r.get(k, 0), v)
        return r

    def piece(self, p):
        if p[0] == 'out':
            for e in self.events:
                if e.k == 'call' and p in (e.outs or {}).values():
                    return self.printed(e)
            return {}
        if p[0] == 'lv':
            return self.repeated(p)
        return self.of(p)

    def printed(self, e):
        if base_name(e.q) != 'snprintf' or len(e.args) < 3:
            return {}
        n, fmt = e.args[1], unmoved(e.args[2])
        if not (is_const(n) and type(n[1]) is int and is_const(fmt) and isinstance(fmt[1], str)):
            return {}
        import re
        room, r, i = 1, {}, 3
        pos = 0
        for m in re.finditer(r'%(-|0|#|\+| )*(\d*)(\.\d+)?(hh|h|ll|l|z)?([xXuod%])', fmt[1]):
            room += m.start() - pos
            pos = m.end()
            if m.group(5) == '%':
                room += 1
                continue
            if i >= len(e.args):
                return {}
            width = {'hh': 8, 'h': 16, 'l': 64, 'll': 64, 'z': 64}.get(m.group(4), 32)
            digits = {'x': width // 4, 'X': width // 4, 'o': width // 3 + 1}.get(m.group(5), len(str(2 ** width)) + 1)
            room += max([digits] + [int(g.strip('.') or 0) for g in (m.group(2), m.group(3)) if g]) + (2 if '#' in (m.group(1) or '') else 0)
            for k, v in self.limit(self.of(e.args[i]), width).items():
                r[k] = max(r.get(k, 0), v)
            i += 1
        room += len(fmt[1]) - pos
        if '%' in re.sub(r'%(-|0|#|\+| )*(\d*)(\.\d+)?(hh|h|ll|l|z)?([xXuod%])', '', fmt[1]) or i != len(e.args) or room > n[1]:
            return {}
        return r

    def repeated(self, t):
        """a text a loop adds to a fixed number of times"""
        for l in loops(self.x.events):
            if l.id != t[1] or t[2] not in (l.pre or {}):
                continue
            n = times(self.x, l)
            r = dict(self.text(l.pre[t[2]]))
            if n is None or not (is_const(n) and type(n[1]) is int):
                return r
            per = []
            for b in l.bodies:
                d = {}
                for p in parts_raw(self.x, b['upd'].get(t[2], t), t):
                    if p != t and not isinstance(p, str):
                        d.update(self.piece(p))
                per.append(d)
            least = min(per, key=lambda d: sum(d.values()), default={})
            for k in range(max(0, n[1])):
                r.update({(key[0], (key[1], k)): v for key, v in least.items()})
            return r
        return {}

    def seed(self, root):
        """the random bits an engine started from, or None if each draw is one of the system's"""
        if cls_of(root) == SOURCE or root[0] in ('zero', 'new') and root[1] == SOURCE:
            return None
        args = root[2] if root[0] == 'new' and len(root) > 2 else root[3] if root[0] == 'mut' and root[1] == 'seed' and len(root) > 3 else ()
        r = {}
        for a in args:
            for t in self.seeds(a):
                for k, v in self.of(t).items():
                    r[k] = max(r.get(k, 0), v)
        return self.total(r) if r else 0

    def seeds(self, a):
        a = unmoved(a)
        if cls_of(a) == 'std::seed_seq' and len(a) > 2:
            for b in a[2]:
                yield from self.seeds(b)
        elif a[0] in ('list', 'ilist', 'arr'):
            for b in a[1:]:
                if isinstance(b, tuple):
                    yield from (self.seeds(b) if b and isinstance(b[0], str) else (y for z in b for y in self.seeds(z)))
        elif a[0] == 'app':
            yield from self.seeds(a[1])
            yield from self.seeds(a[2])
        else:
            yield a

    def total(self, d):
        by = {}
        for (root, _), v in d.items():
            by[root] = by.get(root, 0) + v
        n = 0
        for root, v in by.items():
            s = self.seed(root)
            n += v if s is None else min(v, s)
        return n


def c25(c):
    mk = c.one(UUID + '::CreateUuid', 0)
    conv = [f for f in c.prog.methods.get(UUID, []) if not f['params'] and not f.get('isctor') and f.get('rt', '').startswith('std::basic_string<char')]
    eq = [f for f in c.prog.funcs.values() if in_src(c, f) and base_name(f['q']) == 'operator==' and (f.get('cls') == UUID and len(f['params']) == 1 or len(f['params']) == 2 and all(UUID in t for t in f['pt']))]
    dflt = [f for f in c.prog.methods.get(UUID, []) if f.get('isctor') and not f['params']]
    show_f = printers(c, UUID)
    if not c.ob(len(conv) >= 1 and len(eq) == 1 and len(dflt) == 1 and len(show_f) == 1, 'identifiers can be made, compared, shown and turned into text', mk):
        return
    empty = [x.store[THIS] for x in c.run(dflt[0], UuidPolicy())]
    c.ob(len(empty) == 1, 'there is one empty identifier', dflt[0])

    def value(v, root):
        def pre(st, fr):
            st.store[root] = v
        return pre

    def compare(a, b):
        roots = (THIS, ('pref', 0)) if eq[0].get('cls') == UUID and len(eq[0]['params']) == 1 else (('pref', 0), ('pref', 1))

        def pre(st, fr):
            st.store[roots[0]] = a
            st.store[roots[1]] = b
        return c.run(eq[0], UuidPolicy(), pre=pre)
    n = 0
    for x in c.run(mk, UuidPolicy()):
        if not c.ob(x.kind == 'return', 'making an identifier does not fail', mk):
            continue
        v = x.val
        if isinstance(v, L):
            v = x.get(v.loc)
        n += 1
        texts = {y.val for f in conv for y in c.run(f, UuidPolicy(), pre=value(v, THIS)) if y.kind == 'return'}
        if not c.ob(len(texts) == 1, 'an identifier has one text', conv[0]):
            continue
        t = unmoved(texts.pop())
        bits = Bits(x)
        d = bits.text(t)
        k = bits.total(d)
        c.ob(k >= WANTED_BITS, 'a new identifier is made of at least %d bits from the source of randomness of the system' % WANTED_BITS, mk, '%d bits in %s' % (k, show(t)[:120]))
        for e in empty:
            for a, b in ((v, e), (e, v)):
                c.ob(all(y.kind == 'return' and y.val == FALSE for y in compare(a, b)), 'a new identifier is not the empty one', eq[0])
            c.ob(all(y.kind == 'return' and y.val == TRUE for y in compare(e, e)), 'empty identifiers are equal', eq[0])
        other = renamed(v)
        ot = renamed(t)
        c.ob(ot != t, 'an identifier has a text of its own', mk)
        got = set()
        for y in compare(v, other):
            same = [w for a, w in y.facts.items() if a[0] == 'eq' and set(a[1:]) == {t, ot}]
            got |= set(same)
            c.ob(y.kind == 'return' and len(same) == 1 and y.val == (TRUE if same[0] else FALSE), 'identifiers are equal if their texts are', eq[0], show(y.val) if y.kind == 'return' else 'fails')
        c.ob(got == {True, False}, 'identifiers are equal if their texts are', eq[0])
        f = show_f[0]
        out = stream_loc(f)
        for y in c.run(f, UuidPolicy(), pre=value(v, param_loc(f, UUID))):
            ps = [p for e in y.events if e.k == 'stream' and e.loc == out for p in written(y, e)]
            c.ob(joined(ps) == joined(parts(x, t)) and same_stream(y, out), 'an identifier is shown as its text', f, plain(ps))
    c.ob(n > 0, 'identifiers can be made', mk)


def renamed(t):
    """the same value made another time"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ('out', 'res', 'lv') and len(t) > 2:
        return ('again', t)
    return tuple(renamed(y) for y in t)


# ------------------------------------------------------------------- C32
FSYS = 'lp::Filesystem::'
SETTINGS = 'lp::settings::SettingsManager'


class SearchPolicy(Policy):
    opaque_default = (FSYS, 'lp::log::', BUS + '::')
    opaque = (FSYS, 'lp::log::', BUS + '::')


class SetupPolicy(SearchPolicy):
    opaque = SearchPolicy.opaque + (SETTINGS + '::',)


def entries(x, t, base=lambda t: False):
    """the elements of a list built on a path: terms, and ('all', list) for those of another list in order; None if that cannot be told"""
    t = unmoved(t)
    if base(t):
        return [('all', t)]
    if t == EMPTY or t[0] == 'zero':
        return []
    if t[0] == 'app':
        a = entries(x, t[1], base)
        return None if a is None else a + [unmoved(t[2])]
    if t[0] == 'lv':
        for l in loops(x.events):
            if l.id == t[1] and t[2] in (l.pre or {}):
                a = entries(x, l.pre[t[2]], base)
                if a is None or l.kind not in ('foreach', 'count') or not l.full or l.exits - {'cond', None}:
                    return None
                if [b['kind'] for b in l.bodies] != ['next'] or l.start not in (C(0), None) or l.step not in (1, C(1), None):
                    return None
                v = l.bodies[0]['upd'].get(t[2])
                if v is None:
                    return a
                el = unmoved(v[2]) if v[0] == 'app' and v[1] == t else None
                if el is None:
                    return None
                if el == ('at', l.cont, ('ind', l.id)):
                    m = entries(x, l.cont, base)
                    return a + (m if m is not None else [('all', l.cont)])
                return None
    if t[0] == 'res' or t[0] == 'init':
        return [('all', t)]
    return None


def located(x):
    """the values of a member, by path, that a run of a constructor left"""
    return lambda loc: path_get(x.store[THIS], loc)


def config_ctors(c):
    """a configuration made from its parts holds each of them"""
    for cls in ('lp::PluginManagerConfiguration', 'lp::LampPostConfiguration'):
        fs = c.prog.fields(cls)
        for f in c.prog.methods.get(cls, []):
            if not f.get('isctor') or len(f['params']) < 2:
                continue
            for x in c.run(f, Policy()):
                got = [unmoved(x.get((THIS, (g['n'],)))) for g in fs]
                for i in range(len(f['params'])):
                    c.ob(x.kind == 'return' and got.count(('p', i)) == 1, 'a configuration holds the parts it was made from', f, 'not parameter %d' % (i + 1))


def c32(c):
    config_ctors(c)
    add_f = c.one(PM + '::AddTemplateSearchPath', 1)
    where = None
    for x in c.run(add_f, SearchPolicy()):
        w = [e for e in flatten(x.events) if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS]
        ok = x.kind == 'return' and len({e.loc for e in w}) == 1 and unmoved(x.get(w[0].loc)) == ('app', iv(w[0].loc), ('p', 0))
        if c.ob(ok, 'an added search path becomes the last one, once', add_f):
            where = w[0].loc[1]
    if where is None:
        return

    def configured(t):
        return t[0] == 'fld' and fld_root(t) == ('p', 0)
    n, seen = 0, set()
    ctors = [f for f in c.prog.methods.get(PM, []) if f.get('isctor') and not f.get('copy') and not f.get('implicit')]
    for f in ctors:
        for x in c.run(f, SearchPolicy()):
            if not c.ob(x.kind == 'return', 'a plugin manager can be made', f):
                continue
            n += 1
            got = entries(x, path_get(x.store[THIS], where), configured)
            if not c.ob(got is not None and len(got) > 0, 'the search paths of a new plugin manager can be told', f, show(path_get(x.store[THIS], where))[:200]):
                continue
            c.ob(got[0][0] == 'all' and configured(got[0][1]) and len(got) > 1, 'the search paths of the configuration come first', f, plain_paths(got))
            rest = [g for g in got[1:]]
            exe = [g for g in rest if is_call(g, FSYS + 'GetBaseDirectory') and is_call(unmoved(rargs(g)[0]), FSYS + 'GetPathOfRunningExecutable')]
            cwd = [g for g in rest if is_call(g, FSYS + 'GetWorkingDirectory')]
            lib = [g for g in rest if is_call(g, FSYS + 'CombinePaths') and is_call(unmoved(rargs(g)[0]), FSYS + 'GetWorkingDirectory') and unmoved(rargs(g)[1]) == C('lib')]
            same = None
            for a, v in x.facts.items():
                if a[0] == 'eq' and any(is_call(t, FSYS + 'GetWorkingDirectory') for t in a[1:]) and any(is_call(t, FSYS + 'GetBaseDirectory') for t in a[1:]):
                    same = v
            if same is not None:
                seen.add(same)
            c.ob(len(exe) == 1 and rest[:1] == exe, 'then comes the directory of the executable', f, plain_paths(got))
            c.ob(len(lib) == 1 and rest[-1:] == lib, 'the last one is the lib directory in the working directory', f, plain_paths(got))
            c.ob(len(cwd) == (0 if same else 1) and len(rest) == len(exe) + len(lib) + len(cwd), 'in between comes the working directory, unless it is the directory of the executable', f, plain_paths(got))
            c.ob(same is not None, 'the working directory is compared with the directory of the executable', f)
    c.ob(n > 0 and seen == {True, False}, 'a plugin manager can be made', ctors[0] if ctors else None)
    settings(c, where)
    for f in c.prog.funcs.values():
        if in_src(c, f) and f.get('cls') == PM and not f.get('isctor') and not f.get('isdtor') and f['id'] != add_f['id']:
            for x in c.run(f, PathsPolicy()):
                for e in flatten(x.events):
                    if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS and (e.loc[1][:len(where)] == where or where[:len(e.loc[1])] == e.loc[1]):
                        v = path_get(e.val, where[len(e.loc[1]):]) if e.val is not None and len(e.loc[1]) <= len(where) else None
                        if f.get('access') == 'private' or v == iv((THIS, where)):
                            continue
                        c.ob(v is not None and extends(v, iv((THIS, where))), 'no search path gets lost', e)


def extends(v, t):
    v = unmoved(v)
    while v[0] == 'app':
        v = v[1]
    return v == t


class PathsPolicy(SearchPolicy):
    opaque = SearchPolicy.opaque + ('lp::Plugin',)


def iv(loc):
    t = ('init', loc[0]) if isinstance(loc[0], tuple) else loc[0]
    return path_get(t, loc[1])


def fld_root(t):
    while t[0] == 'fld':
        t = t[1]
    return t


def plain_paths(got):
    return ', '.join((show(g[1]) if g[0] == 'all' else show(g))[:60] for g in got)


def settings(c, where):
    """search paths in the settings get to the plugin manager"""
    add_f = c.one(SETTINGS + '::AddPluginTemplateSearchPath', 1)
    get_f = c.one(SETTINGS + '::GetPluginTemplateSearchPaths', 0)
    loc = None
    for x in c.run(add_f, Policy()):
        w = [e for e in flatten(x.events) if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS]
        if c.ob(x.kind == 'return' and len({e.loc for e in w}) == 1 and unmoved(x.get(w[0].loc)) == ('app', iv(w[0].loc), ('p', 0)), 'a search path added to the settings becomes the last one there', add_f):
            loc = w[0].loc
    for x in c.run(get_f, Policy()):
        got = [('all', x.val)] if loc and x.val == iv(loc) else None
        c.ob(x.kind == 'return' and got is not None and not writes(x.events), 'the settings give all their search paths back', get_f, show(x.val)[:100])
    n = 0
    for f in c.prog.methods.get(LP, []):
        if not f.get('isctor') or f.get('copy') or f.get('implicit'):
            continue
        for x in c.run(f, SetupPolicy()):
            if x.kind != 'return':
                continue
            n += 1
            pm = [g['n'] for g in c.prog.fields(LP) if g['t'].split('::')[-1] == 'PluginManager']
            v = path_get(x.store[THIS], (pm[0],) + where) if len(pm) == 1 else None

            def base(t):
                return t[0] == 'fld' and fld_root(t) == ('p', 0)
            got = entries(x, v, base) if v is not None else None
            fresh = [g for g in got or [] if g[0] == 'all' and is_call(g[1], get_f['q'])]
            if not c.ob(len(fresh) == 1 and got[-1] == fresh[0], 'the host adds every search path of the settings, in order, after its own', f, plain_paths(got) if got else show(v)[:200] if v is not None else ''):
                continue
            c.ob(got[0] == ('all', got[0][1]) and base(got[0][1]), 'the host hands its configuration to the plugin manager', f, plain_paths(got))
            ev = list(x.events)
            at = [i for i, e in enumerate(ev) if e.k == 'call' and e.res == fresh[0][1]]
            read = [i for i, e in enumerate(ev) if e.k == 'loop' and e.full and not e.exits - {'cond', None} and any(is_read(g, e) for b in e.bodies for g in b['events'])]
            c.ob(len(read) == 1 and at and read[0] < at[0] and all(any(is_read(g, ev[read[0]]) for g in b['events']) for b in ev[read[0]].bodies), 'the host reads every configuration file into its settings before it asks them for search paths', f)
    c.ob(n > 0, 'a host can be made', None)


def is_read(g, l):
    return g.k == 'call' and g.q == SETTINGS + '::ReadConfigurationFile' and unmoved(g.args[0]) == ('at', l.cont, ('ind', l.id)) and fld_root(l.cont) == ('p', 0)


# ------------------------------------------------------------------- C33
class NamePolicy(DataPolicy):
    opaque = ('lp::log::', 'lp::messages::Datagram::', RAW + '::')


def c33(c):
    addresses(c)
    message_parts(c)
    names(c)


def message_parts(c):
    """what a message was made of is what it gives back"""
    s, tp, dg = message_fields(c)
    for f in c.prog.methods.get(MSG, []):
        if f.get('isctor') and len(f['params']) == 3:
            for x in c.run(f, NamePolicy()):
                c.ob(x.kind == 'return' and unmoved(path_get(x.store[THIS], (s,))) == ('p', 0) and unmoved(path_get(x.store[THIS], (tp,))) == ('p', 1), 'a message keeps the sender and topic it is made with', f)
                c.ob(x.kind == 'return' and is_copy(x, path_get(x.store[THIS], (dg,)), ('p', 2)), 'a message keeps the datagram it is made with', f)
    for nm, fl in (('GetSender', s), ('GetTopic', tp), ('GetDatagram', dg)):
        f = c.one(MSG + '::' + nm, 0)
        for x in c.run(f, NamePolicy()):
            want = ('fld', ('init', THIS), fl)
            v = x.get(x.val.loc) if isinstance(x.val, L) else x.val
            c.ob(x.kind == 'return' and (unmoved(v) == want or is_copy(x, v, want)), 'a message gives its sender, topic and datagram back', f, show(v)[:100] if x.kind == 'return' else '')
            c.ob(not writes(x.events, (THIS, ())), 'asking a message changes nothing', f)


def is_copy(x, v, t):
    """a datagram that is t, or a copy of it made by the copying of datagrams (C12)"""
    v = unmoved(v)
    if v == t:
        return True
    ws = [e for e in flatten(x.events) if e.k == 'call' and e.q.split('::')[-1] in ('Copy', 'Datagram', 'operator=') and t in [unmoved(a) for a in (e.args or ())] + [unmoved(e.recv)] * (e.recv is not None)]
    if v[0] == 'new' and v[1].endswith('Datagram') and len(v) > 2 and [unmoved(a) for a in v[2]] == [t]:
        return True
    return any(v in (e.res,) or v in (e.outs or {}).values() for e in ws)


def addresses(c):
    s, tp, dg = message_fields(c)
    s0 = ('fld', ('init', THIS), s)
    n = ('p', 0)
    mark = cat(n, C('/'))

    def stands(x):
        """whether the name stands in front, as far as the path tells"""
        return prefix_truth(x.facts, mark, s0)

    def others(x, f):
        for g in c.prog.fields(MSG):
            if g['n'] != s:
                v = path_get(x.store[THIS], (g['n'],)) if THIS in x.store else None
                c.ob(v is None or v == ('fld', ('init', THIS), g['n']), 'only the sender changes', f, g['n'])
    f = c.one(MSG + '::PrependSender', 1)
    for x in c.run(f, NamePolicy()):
        v = path_get(x.store[THIS], (s,)) if THIS in x.store else s0
        c.ob(x.kind == 'return' and plain_text(x.events, v) == cat(mark, s0), 'the name and a slash are put in front of the sender', f, show(v)[:120])
        others(x, f)
    f = c.one(MSG + '::RemoveSender', 1)
    got = set()
    for x in c.run(f, NamePolicy()):
        w = stands(x)
        got.add(w)
        if not c.ob(w is not None and x.kind == 'return', 'the name is taken away if it stands in front, with a slash', f, show_facts(x)):
            continue
        v = path_get(x.store[THIS], (s,)) if THIS in x.store else s0
        if w:
            c.ob(is_rest(v, s0, n), 'exactly the name and the slash are taken away', f, show(v)[:120])
        else:
            c.ob(v == s0, 'a sender that does not start with the name and a slash stays', f, show(v)[:120])
        others(x, f)
    c.ob(got == {True, False}, 'the name is taken away if it stands in front, with a slash', f)
    f = c.one(MSG + '::WasSentBySender', 1)
    got = set()
    for x in c.run(f, NamePolicy()):
        w = stands(x)
        v = x.val
        if w is None and x.kind == 'return' and v[0] == 'prefix' and v[1:] == (mark, s0):
            got = {True, False}
            continue
        got.add(w)
        c.ob(w is not None and x.kind == 'return' and v == (TRUE if w else FALSE), 'a message was sent by a name if its sender starts with the name and a slash', f, show_facts(x))
        c.ob(not writes(x.events, (THIS, ())), 'asking a message changes nothing', f)
    c.ob(got == {True, False}, 'a message was sent by a name if its sender starts with the name and a slash', f)


def show_facts(x):
    return ', '.join('%s%s' % ('' if v else 'not ', show(a)[:80]) for a, v in x.facts.items())[:250]


def is_rest(v, s0, n):
    v = unmoved(v)
    k = add(size(n), C(1))
    if v[0] == 'substr' and v[1] == s0 and v[2] == k:
        return len(v) < 4 or v[3] == ('npos',) or v[3] in (sub(size(s0), k), size(s0))
    return False


# what things are called: class, constructor parameter, question
def names(c):
    want = [('lp::Identifiable', 'GetIdentifier', None), (BUS, 'GetIdentifier', None), ('lp::bus::BusParticipant', 'GetTopic', None),
            ('lp::bus::Publisher', 'GetTopic', None), ('lp::bus::Subscriber', 'GetTopic', None), ('lp::bus::ActionProvider', 'GetTopic', None),
            ('lp::bus::ActionConsumer', 'GetTopic', None), ('lp::PluginInstance', 'GetIdentifier', 'mIdentifier'), ('lp::PluginTemplate', 'GetIdentifier', 'mIdentifier')]
    for cls, ask, fl in want:
        q = [f for b in [cls] + list(c.prog.bases(cls)) for f in c.prog.methods.get(b, []) if base_name(f['q']) == ask and not f['params']]
        if not c.ob(len(q) >= 1, 'what has a name can be asked for it', None, cls):
            continue
        n = 0
        for f in c.prog.methods.get(cls, []):
            if not f.get('isctor') or f.get('copy') or f.get('implicit') or not f['params']:
                continue
            for x in c.run(f, NamePolicy()):
                if x.kind != 'return':
                    continue
                n += 1
                obj = x.store[THIS]

                def pre(st, fr):
                    st.store[THIS] = obj
                for y in c.run(q[0], NamePolicy(), pre=pre):
                    v = y.get(y.val.loc) if isinstance(y.val, L) else y.val
                    v = unmoved(v) if y.kind == 'return' else None
                    c.ob(v is not None and v in given(c, f, fl), 'a name given is the name told', q[0] if v is None else f, show(v)[:100] if v else '')
        c.ob(n > 0, 'what has a name can be made', None, cls)


def given(c, f, fl):
    """the parameter a constructor takes the name from"""
    r = []
    for i, t in enumerate(f['pt']):
        for p in (('p', i), ('init', ('pref', i))):
            if fl is None and 'std::basic_string<char' in t and 'function' not in t:
                r.append(p)
            elif fl and t.split('::')[-1].rstrip(' &').endswith('Configuration'):
                r.append(('fld', p, fl))
    return r
