"""Rules about the values carried by messages: datagrams, their content, messages and raw bytes."""
from ..core import *

NS = 'lp::messages::'
RAW = NS + 'RawDatagram'
DG = NS + 'Datagram'
DATA = NS + 'Data'
DB = NS + 'DataBase'
MSG = NS + 'Message'
EX = 'lp::exceptions::'
INVALID = EX + 'InvalidOperationException'
RANGE = EX + 'IndexOutOfBoundsException'
NOKEY = EX + 'KeyNotFoundException'
KINDS = ('Empty', 'List', 'Dictionary', 'Value')
STR = 'std::basic_string<char'
# how a stored type is called in the program
TYPES = {'string': STR, 'int': 'int', 'double': 'double', 'bool': 'bool'}


class DataPolicy(Policy):
    model_datagram = False
    opaque = ()


class CopyPolicy(DataPolicy):
    opaque = (RAW + '::Copy',)


def is_type(t, k):
    t = t.replace('const ', '').replace(' &', '').strip()
    return t.startswith(STR) if k == 'string' else t == TYPES[k]


def kind_of_type(t):
    for k in TYPES:
        if is_type(t, k):
            return k
    return None


class Raw:
    """the representation of a datagram: four members found by their types, and the
    values its tag takes, found by what the operations that make a list, a
    dictionary or a value leave behind"""

    def __init__(self, c):
        self.c = c
        fs = c.prog.fields(RAW)
        pick = lambda p: [f['n'] for f in fs if p(f['t'])]
        d = pick(lambda t: t.startswith(('std::map<', 'std::unordered_map<')))
        l = pick(lambda t: t.startswith(('std::list<', 'std::vector<', 'std::deque<')))
        v = pick(lambda t: t.startswith('std::shared_ptr<' + DB))
        g = pick(lambda t: t.endswith('RawDatagramType'))
        if [len(x) for x in (d, l, v, g)] != [1, 1, 1, 1]:
            raise AnalysisError('the members of %s are not a dictionary, a list, a value and a tag' % RAW)
        self.dict, self.list, self.value, self.tag = d[0], l[0], v[0], g[0]
        w = [f['n'] for f in c.prog.fields(DG) if f['t'].startswith('std::shared_ptr<' + RAW)]
        if len(w) != 1:
            raise AnalysisError('%s does not hold one %s' % (DG, RAW))
        self.inner = w[0]
        self.tags = {}
        self.find_tags()

    # --------------------------------------------------------------- functions
    def fns(self, cls, name, *pts):
        """the public methods of cls called name whose parameters are of the given kinds:
        'string', 'int', 'index', 'double', 'bool' or a type prefix"""
        r = []
        for f in self.c.prog.methods.get(cls, []):
            if base_name(f['q']) != name or f.get('implicit') or len(f['pt']) != len(pts):
                continue
            if all(self.match(t, p) for t, p in zip(f['pt'], pts)):
                r.append(f)
        return r

    @staticmethod
    def match(t, p):
        t = t.replace('const ', '').replace(' &', '').strip()
        if p == 'index':
            return t in ('unsigned int', 'unsigned long', 'size_t')
        if p in TYPES:
            return is_type(t, p)
        return t.startswith(p)

    def both(self, name, *pts, raw=None):
        r = [(RAW, f) for f in self.fns(RAW, name, *pts)] + [(DG, f) for f in self.fns(DG, name, *pts)]
        if not any(cls == RAW for cls, _ in r):
            raise AnalysisError('%s::%s(%s) is not defined' % (RAW, name, ', '.join(pts)))
        return r

    # ------------------------------------------------------------------- state
    def root(self, cls):
        return THIS if cls == RAW else ('deref', ('fld', ('init', THIS), self.inner))

    def init(self, kind, root):
        """the fields of a datagram of this kind (the ones not in use are empty)"""
        i = ('init', root)
        return {self.tag: self.tags[kind], self.dict: ('fld', i, self.dict) if kind == 'Dictionary' else EMPTY,
                self.list: ('fld', i, self.list) if kind == 'List' else EMPTY,
                self.value: ('fld', i, self.value) if kind == 'Value' else NULL}

    def put(self, st, root, kind):
        for n, v in self.init(kind, root).items():
            st.store[root] = path_set(st.store.get(root, ('init', root)), (n,), v)
        if kind == 'Value':
            st.facts[('null', ('fld', ('init', root), self.value))] = False

    def pre(self, cls, kind, more=None):
        def pre(st, fr):
            if kind:
                self.put(st, self.root(cls), kind)
            if cls == DG:
                st.facts[('null', ('fld', ('init', THIS), self.inner))] = False
            if more:
                more(st, fr)
        return pre

    def run(self, f, kind=None, pol=None, more=None, **kw):
        xs = self.c.run(f, pol or DataPolicy(), pre=self.pre(f.get('cls'), kind, more), **kw)
        return [x for x in xs if not self.impossible(x)]

    @staticmethod
    def impossible(x):
        # an unsigned argument is not negative, a size neither
        return any(a[0] == 'lt0' and v is True and a[1][0] in ('p', 'size') for a, v in x.facts.items())

    def state(self, x, f=None, root=None, cls=None):
        root = root or self.root(cls or f.get('cls'))
        t = x.store.get(root, ('init', root))
        return {n: unmoved(path_get(t, (n,))) for n in (self.tag, self.dict, self.list, self.value)}

    def consistent(self, st, facts=()):
        """which kind this state is, or None when tag and content disagree"""
        for k in KINDS:
            if st[self.tag] == self.tags.get(k):
                break
        else:
            return None
        if k != 'Dictionary' and st[self.dict] != EMPTY or k != 'List' and st[self.list] != EMPTY:
            return None
        v = strip_own(st[self.value])
        if k != 'Value' and v != NULL:
            return None
        if k == 'Value' and v == NULL:
            return None
        return k

    def find_tags(self):
        c = self.c
        ctor = [f for f in c.prog.methods.get(RAW, []) if f.get('isctor') and not f['pt']]
        if len(ctor) != 1:
            raise AnalysisError('no default constructor of ' + RAW)
        add = self.fns(RAW, 'Add', 'std::shared_ptr<' + RAW)
        idx = self.fns(RAW, 'operator[]', 'string')
        asg = self.fns(RAW, 'operator=', 'int')
        self.made = {}
        for k, fs in (('Empty', ctor), ('List', add), ('Dictionary', idx), ('Value', asg)):
            if not fs:
                raise AnalysisError('no operation that makes a %s' % k)
            vs = set()
            for x in c.run(fs[0], DataPolicy()):
                if x.kind == 'return':
                    vs.add(x.get((THIS, (self.tag,))))
            vs = {v for v in vs if is_const(v)} or vs
            self.made[k] = (fs[0], vs)
            if len(vs) == 1:
                self.tags[k] = vs.pop()

    def distinct(self):
        """the four kinds are told apart; without it nothing else can be decided"""
        ok = len(set(self.tags.values())) == 4 and all(is_const(t) for t in self.tags.values())
        self.c.ob(ok, 'an empty datagram, a list, a dictionary and a value are told apart', self.made['Add' if 0 else 'List'][0],
                  ', '.join('%s: %s' % (k, show(v)) for k, v in self.tags.items()))
        return ok


def raised(x, cls):
    return x.kind == 'throw' and (x.val.tt == cls or cls in x.val.bases)


def outcome(x):
    return ('throws ' + x.val.tt.split('::')[-1]) if x.kind == 'throw' else 'returns' + (' ' + show(x.val) if isinstance(x.val, tuple) else '')


def in_range(x, lst, i):
    """whether index i lies in the list on this path; None when the path does not say"""
    for a, v in x.facts.items():
        if a == ('lt0', sub(i, size(lst))):
            return v
        if a == ('lt0', sub(size(lst), i)) and v:
            return False
    if lst == EMPTY:
        return False
    return None


def element(r, f, x, want):
    """the path returns the element `want` (a location of a datagram, at either level)"""
    v = x.val
    if isinstance(v, L):
        return v.loc == want
    t = path_get(x.store.get(want[0], ('init', want[0])), want[1])
    if f['cls'] == DG:
        return strip_own(select(v, r.inner)) == strip_own(t)
    return strip_own(v) == strip_own(t)


def present(x, k, d):
    """whether key k is in dictionary d on this path; None when the path does not say.
    A dictionary holds datagrams: what is found null under a key was not there."""
    if d == EMPTY:
        return False
    v = x.facts.get(('in', k, d))
    if v is None:
        n = x.facts.get(('null', sel_at(d, k)))
        v = None if n is None else not n
    return v


def text(x):
    fs = [(show(a), v) for a, v in x.facts.items() if a[0] in ('in', 'lt0', 'eq0', 'empty')]
    return ' and '.join(('' if v else 'not ') + a for a, v in fs[:4])


def unchanged(c, r, f, kind, x, what):
    st, i = r.state(x, f), r.init(kind, r.root(f['cls']))
    bad = [n for n in i if strip_own(st[n]) != i[n]]
    c.ob(not bad, what, f, '%s becomes %s' % (bad[0], show(st[bad[0]])) if bad else '')


def new_empty(r, x, t):
    """t is a pointer to a datagram made on this path that is empty"""
    t = strip_own(t)
    if not (t[0] == 'addr' and t[1][0][0] == 'obj' and t[1][1] == ()):
        return False
    st = r.state(x, root=t[1][0])
    return r.consistent(st) == 'Empty'


# ------------------------------------------------------------------- C09
def c09(c):
    r = Raw(c)
    if not r.distinct():
        return
    P0 = ('p', 0)
    for cls, f in r.both('GetCount'):
        for k in KINDS:
            for x in r.run(f, k):
                i = r.init(k, r.root(cls))
                if k in ('List', 'Dictionary'):
                    c.ob(x.kind == 'return' and x.val == size(i[r.list if k == 'List' else r.dict]), 'counting gives the number of elements of a list or dictionary', f, '%s: %s' % (k, outcome(x)))
                else:
                    c.ob(raised(x, INVALID), 'counting what is neither a list nor a dictionary is refused', f, '%s: %s' % (k, outcome(x)))
                unchanged(c, r, f, k, x, 'counting changes nothing')
    for cls, f in r.both('Clear'):
        for k in KINDS:
            for x in r.run(f, k):
                if k in ('List', 'Dictionary'):
                    st = r.state(x, f)
                    c.ob(x.kind == 'return' and st[r.list] == EMPTY and st[r.dict] == EMPTY and st[r.value] == NULL and st[r.tag] == r.tags[k], 'clearing leaves an empty list or dictionary', f,
                         '%s: %s' % (k, outcome(x)))
                else:
                    c.ob(raised(x, INVALID), 'clearing what is neither a list nor a dictionary is refused', f, '%s: %s' % (k, outcome(x)))
                    unchanged(c, r, f, k, x, 'a refused operation changes nothing')
    for cls, f in r.both('Remove', 'string'):
        for k in KINDS:
            for x in r.run(f, k):
                i = r.init(k, r.root(cls))
                if k != 'Dictionary':
                    c.ob(raised(x, INVALID), 'removing a key from anything but a dictionary is refused', f, '%s: %s' % (k, outcome(x)))
                    unchanged(c, r, f, k, x, 'a refused operation changes nothing')
                    continue
                d = i[r.dict]
                there = x.facts.get(('in', P0, d))
                if x.kind == 'return':
                    st = r.state(x, f)
                    ok = st[r.dict] == ('del', d, P0) and all(strip_own(st[n]) == i[n] for n in i if n != r.dict)
                    c.ob(there is True and ok, 'removing a key takes exactly that key out, and only succeeds when it is there', f, text(x) + ': ' + show(st[r.dict]))
                else:
                    c.ob(there is False and raised(x, NOKEY) and x.val.args[:1] == (P0,), 'removing a missing key is refused with that key', f, text(x) + ': ' + outcome(x))
                    unchanged(c, r, f, k, x, 'a refused operation changes nothing')
    for cls, f in r.both('Remove', 'index'):
        for k in KINDS:
            for x in r.run(f, k):
                i = r.init(k, r.root(cls))
                if k != 'List':
                    c.ob(raised(x, INVALID), 'removing a position from anything but a list is refused', f, '%s: %s' % (k, outcome(x)))
                    unchanged(c, r, f, k, x, 'a refused operation changes nothing')
                    continue
                l = i[r.list]
                there = in_range(x, l, P0)
                if x.kind == 'return':
                    st = r.state(x, f)
                    ok = st[r.list] == ('delat', l, P0) and all(strip_own(st[n]) == i[n] for n in i if n != r.list)
                    c.ob(there is True and ok, 'removing a position takes exactly that element out, and only succeeds when it is there', f, text(x) + ': ' + show(st[r.list]))
                else:
                    c.ob(there is False and raised(x, RANGE) and x.val.args[:1] == (P0,), 'a position that is not there is refused with that position', f, text(x) + ': ' + outcome(x))
                    unchanged(c, r, f, k, x, 'a refused operation changes nothing')
    for cls, f in r.both('operator[]', 'index') + [(RAW, g) for g in r.fns(RAW, 'Get', 'index')]:
        for k in KINDS:
            for x in r.run(f, k):
                root = r.root(cls)
                i = r.init(k, root)
                l = i[r.list]
                el = (root, (r.list, ('at', P0)))
                if x.facts.get(('null', sel_at(l, P0))) is True:
                    continue     # a list holds datagrams
                there = in_range(x, l, P0)
                if x.kind == 'return':
                    c.ob(k == 'List' and there is True and element(r, f, x, el), 'reading a position gives that element, and only when it is there', f, '%s: %s' % (k, text(x)))
                else:
                    c.ob(there is False and raised(x, RANGE) and x.val.args[:1] == (P0,) or k != 'List' and raised(x, INVALID), 'a position that is not there is refused with that position', f, text(x) + ': ' + outcome(x))
                unchanged(c, r, f, k, x, 'reading a position changes nothing')
    for cls, f in r.both('operator[]', 'string') + [(RAW, g) for g in r.fns(RAW, 'Get', 'string')]:
        for k in KINDS:
            for x in r.run(f, k):
                root = r.root(cls)
                i = r.init(k, root)
                d = i[r.dict]
                if x.facts.get(('null', sel_at(d, P0))) is True and x.facts.get(('in', P0, d)) is True:
                    continue     # a dictionary holds datagrams
                if not c.ob(x.kind == 'return', 'asking for a key never fails', x.val.src if x.kind == 'throw' else f, outcome(x)):
                    continue
                el = (root, (r.dict, ('at', P0)))
                st = r.state(x, f)
                c.ob(element(r, f, x, el), 'asking for a key gives what is stored under it', f, '%s: %s' % (k, text(x)))
                if k == 'Dictionary' and present(x, P0, d) is True:
                    unchanged(c, r, f, k, x, 'asking for an existing key changes nothing')
                    continue
                c.ob(k != 'Dictionary' or present(x, P0, d) is False, 'asking for a key looks whether it is there', f, text(x))
                n = st[r.dict]
                c.ob(n[0] == 'put' and n[1] == d and n[2] == P0 and new_empty(r, x, n[3]), 'asking for a missing key adds an empty datagram under it and nothing else', f, '%s: %s' % (k, show(n)))
                c.ob(r.consistent(st) == 'Dictionary', 'what a key was added to is a dictionary', f, '%s: tag %s' % (k, show(st[r.tag])))
    for cls, f in r.both('KeyExists', 'string'):
        for k in KINDS:
            for x in r.run(f, k):
                d = r.init(k, r.root(cls))[r.dict]
                there = x.facts.get(('in', P0, d), False if d == EMPTY else None)
                v = x.val
                if x.kind == 'return' and v == ('in', P0, d):
                    there, v = True, TRUE
                c.ob(x.kind == 'return' and there is not None and v == C(there), 'a key is reported as there exactly when it is', f, '%s: %s: %s' % (k, text(x), outcome(x)))
                unchanged(c, r, f, k, x, 'asking whether a key is there changes nothing')
    for cls, f in r.both('GetType'):
        for k in KINDS:
            for x in r.run(f, k):
                c.ob(x.kind == 'return' and x.val == r.tags[k], 'the type of a datagram is what it is', f, '%s: %s' % (k, outcome(x)))
                unchanged(c, r, f, k, x, 'asking for the type changes nothing')
    for f in r.fns(DG, 'IsEmpty'):
        for k in KINDS:
            for x in r.run(f, k):
                c.ob(x.kind == 'return' and x.val == C(k == 'Empty'), 'a datagram is empty exactly when it holds nothing', f, '%s: %s' % (k, outcome(x)))
    reads(c, r)


def content(r, cls, ty, t):
    """t is the content, of type ty, of the value of the datagram at cls' root"""
    v = ('fld', ('init', r.root(cls)), r.value)
    return t[0] == 'fld' and t[1] == ('init', ('deref', ('dyncast', DATA + '<' + ty + '>', v)))


def reads(c, r):
    """reading the stored value with and without a default"""
    for cls, f in r.both('Get') + r.both('IsOfValueType')+ [(DG, g) for g in r.c.prog.methods[DG] if g['n'].startswith('operator ') and not g['pt']]:
        ty = f['ta'][0] if f.get('ta') else f['rt']
        for k in KINDS:
            for x in r.run(f, k):
                v = ('fld', ('init', r.root(cls)), r.value)
                fit = x.facts.get(('null', ('dyncast', DATA + '<' + ty + '>', v)))
                fit = False if k != 'Value' else None if fit is None else not fit
                if base_name(f['q']) == 'IsOfValueType':
                    c.ob(fit is not None and x.kind == 'return' and x.val == C(fit), 'a datagram is of a value type exactly when it holds one', f, '%s: %s' % (k, outcome(x)))
                elif fit:
                    c.ob(x.kind == 'return' and content(r, cls, ty, x.val), 'reading a value of the stored type gives the stored value', f, outcome(x))
                else:
                    c.ob(fit is False and raised(x, INVALID), 'reading a value that is not stored with that type is refused', f, '%s: %s' % (k, outcome(x)))
                unchanged(c, r, f, k, x, 'reading a value changes nothing')
    P0, P1 = ('p', 0), ('p', 1)
    find = ('sfind', 'find', P0, (('c', 47),))
    for tk in TYPES:
        for cls, f in r.both('Get', 'string', tk):
            ty = f['ta'][0]
            for k in KINDS:
                i = r.init(k, r.root(cls))
                for x in r.run(f, k):
                    unchanged(c, r, f, k, x, 'reading with a default changes nothing')
                    if not c.ob(x.kind == 'return', 'reading with a default never fails', x.val.src if x.kind == 'throw' else f, outcome(x)):
                        continue
                    t = x.val
                    here = x.facts.get(('empty', P0)) is True
                    if content(r, cls, ty, t):
                        ok = here and k == 'Value' and x.facts.get(('null', ('dyncast', DATA + '<' + ty + '>', ('fld', ('init', r.root(cls)), r.value)))) is False
                        c.ob(ok, 'an empty path reads the value itself when it has the type', f, text(x))
                    elif t[0] == 'res' and base_name(t[1]) == 'Get':
                        ok = k == 'Dictionary' and x.facts.get(('empty', P0)) is False and descends(x, i[r.dict], t, find, P0, P1)
                        c.ob(ok, 'a path is followed into the entry named by its first part, with the rest of the path and the default', f, show(t))
                    else:
                        if here:
                            ok = k != 'Value' or x.facts.get(('null', ('dyncast', DATA + '<' + ty + '>', ('fld', ('init', r.root(cls)), r.value)))) is True
                        else:
                            ok = k != 'Dictionary' or any(a[0] == 'in' and a[2] == i[r.dict] and v is False for a, v in x.facts.items())
                        c.ob(t == P1 and ok, 'the default is given exactly when the path leads to no value of that type', f, '%s: %s: %s' % (k, text(x), show(t)))


def descends(x, d, t, find, P0, P1):
    recv, args = t[2][0], t[2][1:]
    if len(args) != 2 or args[1] != P1:
        return False
    ats = [y for y in subterms(recv) if y[0] == 'at' and y[1] == d]
    if not ats:
        return False
    key, rest = ats[0][2], args[0]
    npos = [v for a, v in x.facts.items() if (a[0] == 'eq0' and find in to_lin(a[1])[1] or a[0] == 'eq' and find in a[1:]) and any(y == ('npos',) or y[0] == 'glob' and 'npos' in str(y) for y in subterms(a[1]))]
    if x.facts.get(('in', key, d)) is not True:
        return False
    if npos and npos[0] is True:
        return key in (P0, ('substr', P0, C(0), find)) and rest == C('')
    if not npos:
        return False
    if key[0] != 'substr' or key[1] != P0 or key[2] != C(0) or key[3] != find:
        return False
    after = add(find, C(1))
    if rest[0] == 'substr':
        return rest[1] == P0 and rest[2] == after and (rest[3] == ('npos',) or 'npos' in repr(rest[3]) or rest[3] == sub(size(P0), after))
    if rest == C(''):
        return any(a[0] == 'lt0' and v is False and a[1] == sub(after, size(P0)) or a[0] == 'eq0' and v is True and a[1] in (sub(after, size(P0)), sub(size(P0), after)) for a, v in x.facts.items())
    return False


# ------------------------------------------------------------------- C13
def public(c, cls):
    return [f for f in c.prog.methods.get(cls, []) if f.get('acc', 0) == 0 and not f.get('implicit') and not f.get('dtor') and not f.get('static')]


def inner_root(r, cls, x):
    """the datagram a path leaves behind"""
    if cls == RAW:
        return THIS
    v = strip_own(unmoved(x.get((THIS, (r.inner,)))))
    if v == ('fld', ('init', THIS), r.inner):
        return r.root(DG)
    return v[1][0] if v[0] == 'addr' and v[1][1] == () else ('deref', v)


def nonnull(st, fr):
    pass


def args_of(r, f, cls):
    """the arguments a method is tried with: each kind for a tag, otherwise unknown"""
    for i, t in enumerate(f['pt']):
        if t.endswith('RawDatagramType') and '*' not in t and '<' not in t:
            return [(k, [r.tags[k] if j == i else ('p', j) for j in range(len(f['pt']))]) for k in KINDS]
    return [(None, None)]


def c13(c):
    r = Raw(c)
    if not r.distinct():
        return
    P0 = ('p', 0)

    def more(st, fr):
        st.facts[('null', P0)] = False
    skip = ('SerializeToStructure',)
    cons = 'a datagram holds exactly what its type says: nothing, a list, a dictionary or a value'
    for cls in (RAW, DG):
        for f in public(c, cls):
            if base_name(f['q']) in skip or f.get('const') and not f.get('isctor'):
                continue
            copies = f['pt'] and f['pt'][0].replace('const ', '').rstrip('& ') in (DG, RAW)
            if copies or cls == DG and f.get('isctor') and len(f['pt']) == 1 and f['pt'][0].startswith('std::shared_ptr'):
                continue
            for tag, args in args_of(r, f, cls):
                for k in ((None,) if f.get('isctor') else KINDS):
                    for x in r.run(f, k, pol=CopyPolicy(), more=more, args=args):
                        root = inner_root(r, cls, x)
                        st = r.state(x, root=root)
                        v = strip_own(st[r.value])
                        kind = r.consistent(st)
                        c.ob(kind is not None, cons, f, '%s from %s: tag %s, dictionary %s, list %s, value %s' % (text(x) or 'called', k, show(st[r.tag]), show(st[r.dict]), show(st[r.list]), show(v)))
                        if tag:
                            c.ob(kind == tag and st[r.dict] == EMPTY and st[r.list] == EMPTY, 'a datagram made as one type is an empty one of that type', f, '%s: %s' % (tag, kind))
                        if f.get('isctor') and not f['pt']:
                            c.ob(kind == 'Empty', 'a datagram made from nothing is empty', f, str(kind))
    asg = 'a value put into a datagram is read back with its type'
    for cls in (RAW, DG):
        sets = [f for f in public(c, cls) if len(f['pt']) == 1 and (f.get('isctor') or base_name(f['q']) == 'operator=')]
        n = 0
        for f in sets:
            t = f['pt'][0]
            tk = kind_of_type(t) or ('string' if t.replace('const ', '') in ('char *',) or t.startswith(('const char[', 'char[')) else None)
            if not tk:
                continue
            n += 1
            for k in ((None,) if f.get('isctor') else KINDS):
                for x in r.run(f, k):
                    if not c.ob(x.kind == 'return', 'putting a value into a datagram does not fail', x.val.src if x.kind == 'throw' else f, outcome(x)):
                        continue
                    root = inner_root(r, cls, x)
                    got = []
                    for g in r.fns(RAW, 'Get'):
                        same = kind_of_type(g['ta'][0]) == tk
                        for y in c.cont(g, x, this=('addr', (root, ())), pol=DataPolicy()):
                            if same:
                                ok = y.kind == 'return' and unmoved(y.val) == P0
                            else:
                                ok = raised(y, INVALID)
                            c.ob(ok, asg, f, '%s stored as %s, read as %s: %s' % (tk, show(strip_own(r.state(x, root=root)[r.value])), g['ta'][0], outcome(y)))
                            got.append(ok)
                    c.ob(bool(got), asg, f, 'cannot be read')
        c.ob(n >= 4, 'strings, integers, doubles and booleans can be put into a datagram', c.any(cls + '::operator=')[0], '%d ways' % n)
    for cls, f in r.both('Add', 'std::shared_ptr<' + RAW):
        for k in KINDS:
            for x in r.run(f, k, more=more):
                i, st = r.init(k, r.root(cls)), r.state(x, f)
                ok = x.kind == 'return' and st[r.list][0] == 'app' and st[r.list][1] == i[r.list] and strip_own(st[r.list][2]) == P0
                c.ob(ok, 'adding puts the element at the end of the list', f, '%s: %s' % (k, show(st[r.list])))
    for f in r.fns(RAW, 'operator=', 'std::shared_ptr<' + DB) + [f for f in public(c, RAW) if f.get('isctor') and len(f['pt']) == 1 and f['pt'][0].startswith('std::shared_ptr<' + DB)]:
        for k in ((None,) if f.get('isctor') else KINDS):
            for x in r.run(f, k, more=more):
                c.ob(x.kind == 'return' and strip_own(r.state(x, f)[r.value]) == P0, 'a given value is the one stored', f, show(r.state(x, f)[r.value]))
    for f in [f for f in public(c, DG) if f.get('isctor') and len(f['pt']) == 1 and f['pt'][0].startswith('std::shared_ptr<' + RAW)]:
        for x in c.run(f, DataPolicy()):
            v = strip_own(x.get((THIS, (r.inner,))))
            if x.facts.get(('null', P0)) is False or v == P0:
                c.ob(v == P0 and x.facts.get(('null', P0)) is False, 'a datagram made for given content refers to that content, if there is any', f, show(v))
            else:
                c.ob(new_empty(r, x, v), 'a datagram made for no content is empty', f, show(v))


# ------------------------------------------------------------- filled containers
class Fill:
    """a container that a loop fills: what is put into it per element of what"""

    def __init__(self, loop, start, items, ordered):
        self.loop, self.start, self.items, self.ordered = loop, start, items, ordered


def find_loop(evs, lid):
    for e in evs:
        if e.k != 'loop':
            continue
        if e.id == lid:
            return e
        for b in e.bodies:
            r = find_loop(b['events'], lid)
            if r:
                return r
    return None


def filled(x, v, depth=0):
    """v: the value of a container at the end of path x -> Fill, or None when no loop fills it"""
    v = strip_own(unmoved(v))
    if v[0] != 'lv':
        return None
    e = find_loop(x.events, v[1])
    if e is None:
        return None
    loc = v[2]
    items = []
    for b in e.bodies:
        if b['kind'] not in ('next', 'n', 'c', 'continue'):
            return Fill(e, None, None, False)
        u = b['upd'].get(loc)
        if u is None or u == v:
            items.append((b, None, None))
        elif u[0] == 'app' and strip_own(u[1]) == v:
            items.append((b, None, strip_own(u[2])))
        elif u[0] == 'put' and strip_own(u[1]) == v:
            items.append((b, u[2], strip_own(u[3])))
        else:
            items.append((b, 'other', u))
    start = strip_own(unmoved(e.pre.get(loc, ('?',))))
    if e.cont is not None and start == EMPTY:
        # a key of the container that is passed over comes only once
        me = ('key', e.cont, ('ind', e.id))
        if all(k in (None, me) for _, k, _ in items):
            items = [i for i in items if i[1] is not None or i[2] is not None or not any(v is True and a == ('in', me, ('lv', e.id, loc)) for a, v in i[0]['facts'])]
    return Fill(e, start, items, True)


def visits_all(e):
    return bool(e.full) and not e.exits


class DeepPolicy(CopyPolicy):
    deep = (DG, MSG)


def deep_copy(r, x, ptr, src):
    """ptr points to a datagram that is the copy of the one src points to"""
    ptr = strip_own(unmoved(ptr))
    want = lambda t: t[0] == 'res' and t[1] == RAW + '::Copy' and t[2][0] == ('init', ('deref', src))
    if want(ptr):
        return True
    if ptr[0] == 'addr' and ptr[1][1] == () and ptr[1][0][0] == 'obj':
        v = x.store.get(ptr[1][0])
        return v is not None and v[0] == 'init' and v[1][0] == 'deref' and want(strip_own(v[1][1]))
    return False


# ------------------------------------------------------------------- C12
def c12(c):
    r = Raw(c)
    if not r.distinct():
        return
    f = c.one(RAW + '::Copy', 0)
    for k in KINDS:
        for x in r.run(f, k, pol=CopyPolicy()):
            unchanged(c, r, f, k, x, 'copying changes nothing')
            p = strip_own(x.val) if x.kind == 'return' else ('?',)
            if not c.ob(p[0] == 'addr' and p[1][1] == () and p[1][0][0] == 'obj', 'copying gives a new datagram', f, outcome(x)):
                continue
            st, i = r.state(x, root=p[1][0]), r.init(k, THIS)
            c.ob(st[r.tag] == r.tags[k], 'a copy is of the same type', f, '%s: %s' % (k, show(st[r.tag])))
            for n in (r.list, r.dict, r.value):
                v = strip_own(st[n])
                what = 'the copy of a %s has copies of everything in it and nothing else' % k.lower()
                if n == r.value and k == 'Value':
                    ok = v[0] == 'res' and base_name(v[1]) == 'Copy' and v[2] == (('init', ('deref', i[r.value])),)
                    c.ob(ok, what, f, show(v))
                elif n == r.list and k == 'List' or n == r.dict and k == 'Dictionary':
                    fl = filled(x, v)
                    ok = bool(fl and fl.items) and fl.start == EMPTY and visits_all(fl.loop)
                    for b, key, el in (fl.items if fl and fl.items else []):
                        src = [a for a in subterms(el) if a[0] == 'at' and a[1] == i[n]] if el else []
                        ok = ok and bool(src) and el[0] == 'res' and el[1] == RAW + '::Copy' and el[2] == (('init', ('deref', src[0])),)
                        if ok and n == r.list:
                            ok = key is None and src[0][2] == ('ind', fl.loop.id)
                        elif ok:
                            ok = key == src[0][2] and key[:2] == ('key', i[n])
                    c.ob(ok, what, f, show(v))
                else:
                    c.ob(v == (NULL if n == r.value else EMPTY), what, f, '%s: %s' % (n, show(v)))
    n = 0
    for f in c.prog.methods.get(DATA, []):
        if base_name(f['q']) == 'Copy' and not f['pt']:
            n += 1
            fs = [g['n'] for g in c.prog.fields(DATA)]
            ty = f['q'][:f['q'].rindex('::')]
            for x in c.run(f, DataPolicy()):
                p = strip_own(x.val) if x.kind == 'return' else ('?',)
                ok = p[0] == 'addr' and p[1][0][0] == 'obj' and p[1][1] == () and p[1][0][1][0] == ty
                t = x.store.get(p[1][0], ('?',)) if ok else None
                c.ob(ok and all(unmoved(path_get(t, (m,))) == ('fld', ('init', THIS), m) for m in fs), 'the copy of a value is a new one of the same type with the same content', f, outcome(x))
    c.ob(n >= 4, 'values of every type can be copied', c.any(RAW + '::Copy')[0], '%d' % n)
    pol = DeepPolicy()
    in0 = lambda t: ('fld', t, r.inner)
    for f in c.prog.methods[DG]:
        if len(f['pt']) != 1 or not f['pt'][0].startswith('const ' + DG) or not (f.get('isctor') or base_name(f['q']) == 'operator='):
            continue
        src = in0(('p', 0))
        for x in c.run(f, pol):
            if not c.ob(x.kind == 'return', 'copying a datagram does not fail', x.val.src if x.kind == 'throw' else f, outcome(x)):
                continue
            v = x.get((THIS, (r.inner,)))
            if x.facts.get(('null', src)) is True:
                c.ob(new_empty(r, x, v), 'the copy of a datagram without content is empty', f, show(strip_own(v)))
            elif f.get('isctor'):
                c.ob(deep_copy(r, x, v, src), 'a datagram made from another one holds a copy of its content', f, show(strip_own(v)))
            else:
                # assigning writes through: the datagram may be an element of another one
                c.ob(strip_own(v) == ('fld', ('init', THIS), r.inner), 'assigning keeps the datagram where it is', f, show(strip_own(v)))
                t = x.store.get(('deref', in0(('init', THIS))), ('?',))
                ok = t[0] == 'init' and t[1][0] == 'deref' and deep_copy(r, x, t[1][1], src)
                c.ob(ok, 'assigning a datagram stores a copy of its content', f, show(t))
    ms = c.prog.methods[MSG]
    fs = {g['t']: g['n'] for g in c.prog.fields(MSG)}
    dg = fs.get(DG)
    if dg is None:
        raise AnalysisError('a message has no datagram member')
    for f in ms:
        t = f['pt']
        if f.get('isctor') and len(t) == 3 and t[2].replace('const ', '').startswith(DG):
            for x in c.run(f, pol):
                src = in0(('p', 2))
                v = x.get((THIS, (dg, r.inner)))
                if x.facts.get(('null', src)) is True:
                    continue
                own = not t[2].endswith('&') and strip_own(unmoved(v)) == src
                c.ob(x.kind == 'return' and (own or deep_copy(r, x, v, src)), 'a message holds a copy of the datagram it was made from', f, show(strip_own(v)))
        elif len(t) == 1 and t[0].replace('const ', '').startswith(MSG) and not t[0].endswith('&&') and (f.get('isctor') or base_name(f['q']) == 'operator='):
            for x in c.run(f, pol):
                src = in0(('fld', ('p', 0), dg))
                if x.facts.get(('null', src)) is True:
                    continue
                v = x.get((THIS, (dg, r.inner)))
                if f.get('isctor'):
                    c.ob(deep_copy(r, x, v, src), 'the copy of a message holds a copy of its datagram', f, show(strip_own(v)))
                else:
                    t2 = x.store.get(('deref', in0(('fld', ('init', THIS), dg))), ('?',))
                    ok = deep_copy(r, x, v, src) or t2[0] == 'init' and t2[1][0] == 'deref' and deep_copy(r, x, t2[1][1], src)
                    c.ob(ok, 'the copy of a message holds a copy of its datagram', f, show(strip_own(v)))
    for f in c.any(MSG + '::GetDatagram', 0):
        for x in c.run(f, pol):
            src = in0(('fld', ('init', THIS), dg))
            if x.facts.get(('null', src)) is True:
                continue
            if isinstance(x.val, L) and f['rt'].startswith('const '):
                continue
            v = select(x.val, r.inner) if isinstance(x.val, tuple) else ('?',)
            c.ob(deep_copy(r, x, v, src), 'what a message gives out is a copy of its datagram', f, show(strip_own(v)))


# ------------------------------------------------------------------- C17
class EqPolicy(DataPolicy):
    opaque = (DG + '::operator==', RAW + '::operator==')


def says_equal(facts, a, b, op=None):
    """whether these facts say that a and b are equal; op: the comparison that decides it"""
    for t, v in facts.items():
        if t in (('eq', a, b), ('eq', b, a), ('eq0', sub(a, b)), ('eq0', sub(b, a)), ('seqeq', a, b), ('seqeq', b, a)):
            if op is None:
                return v
        if op and t[0] == 'b' and t[1][0] == 'res' and t[1][1].endswith('::operator==') and t[1][1].startswith(op) and len(t[1][2]) == 2 and set(t[1][2]) == {a, b}:
            return v
    return None


def truth(x):
    """the boolean a path returns, with what it says about a result it just hands on"""
    t = x.val
    if x.kind != 'return' or not isinstance(t, tuple):
        return []
    if t in (TRUE, FALSE):
        return [(t == TRUE, dict(x.facts))]
    neg = False
    if t[0] == 'not':
        t, neg = t[1], True
    at = t if t[0] in ('eq', 'eq0', 'seqeq', 'in', 'null', 'empty', 'lt0', 'b') else ('b', t)
    return [(v != neg, dict(x.facts, **{}) | {at: v}) for v in (True, False) if x.facts.get(at, v) == v]


def pair_arg(r, kind):
    t = ('p', 0)
    for n, v in {r.tag: r.tags[kind], r.dict: ('fld', t, r.dict) if kind == 'Dictionary' else EMPTY,
                 r.list: ('fld', t, r.list) if kind == 'List' else EMPTY,
                 r.value: ('fld', t, r.value) if kind == 'Value' else NULL}.items():
        t = with_field(t, n, v)
    return t


def deref_init(t):
    return ('init', ('deref', t))


def elements_equal(facts, a, b, mp):
    """the facts of one round of a loop compare the elements of a and b that belong together:
    True equal, False different (or missing), None neither"""
    for t, v in facts.items():
        if mp and t[0] == 'in' and v is False:
            for p, q in ((a, b), (b, a)):
                if t[2] == q and t[1][:2] == ('key', p):
                    return False
        if t[0] == 'b' and t[1][0] == 'res' and t[1][1] == RAW + '::operator==' and len(t[1][2]) == 2:
            e = []
            for y in t[1][2]:
                if y[0] == 'init' and y[1][0] == 'deref' and y[1][1][0] == 'at':
                    e.append(y[1][1])
            if len(e) != 2 or {e[0][1], e[1][1]} != {a, b} or e[0][2] != e[1][2]:
                continue
            k = e[0][2]
            if mp:
                if k[0] != 'key' or k[1] not in (a, b):
                    continue
                other = b if k[1] == a else a
                if facts.get(('in', k, other)) is not True:
                    continue
            elif k[0] != 'ind':
                continue
            return v
    return None


def containers_equal(c, r, f, x, v, facts, a, b, mp):
    """is the verdict v of this path justified by comparing all elements of a and b?"""
    same = says_equal(facts, size(a), size(b))
    if v and any(t[0] == 'eq' and PTHIS in t[1:] and w for t, w in facts.items()):
        return True
    ls = [e for e in x.events if e.k == 'loop']
    eqs = [e for e in x.events if e.k == 'equal']
    se = says_equal_seq(facts, a, b)
    if se is not None:
        n = [e for e in eqs if {e.its[0][2], e.its[2][2]} == {a, b}]
        if not n or n[-1].pred is None:
            return False
        preds = [e for e in x.events if e.k == 'equalpred']
        if not preds or not all(pred_ok(o, a, b, mp) for e in preds for o in e.outs):
            return False
        if v:
            return se is True and (same is True or n[-1].n == 4)
        return se is False or same is False
    if not v and same is False:
        return True
    fl = flag_verdict(x, a, b, mp)
    for me, e in fl.items():
        w = facts.get(('b', me))
        if w is False and not v:
            return True
        if w is True and v and same is True and not any(bd['kind'] == 'return' for bd in e.bodies):
            n = [k for k in (a, b) if any(facts.get(t) is True for t in (('eq0', sub(('ind', e.id), size(k))), ('eq0', sub(size(k), ('ind', e.id))))) or
                 facts.get(('lt0', sub(('ind', e.id), size(k)))) is False]
            if e.full and e.cont in (a, b) or n:
                return True
    if not v:
        return elements_equal(facts, a, b, mp) is False
    if same is not True:
        return False
    for e in ls:
        if not visits_whole(e, (a, b)):
            continue
        nexts = [bd for bd in e.bodies if bd['kind'] in ('next', 'n', 'c', 'continue')]
        stops = [bd for bd in e.bodies if bd not in nexts]
        if nexts and all(elements_equal(dict(bd['facts']), a, b, mp) is True for bd in nexts):
            # an equal verdict comes from going through all of it, not from leaving early
            if all(any(facts.get(t) != w for t, w in dict(bd['facts']).items()) for bd in stops):
                return True
    return facts.get(('empty', a)) is True or says_equal(facts, size(a), C(0)) is True


def flag_verdict(x, a, b, mp):
    """a verdict kept in a variable that a loop over the elements updates: {location: the flag
    starts true, stays true only while elements are equal, becomes false only where they differ}"""
    r = {}
    for e in loops(x.events):
        for loc in e.H or ():
            if unmoved(e.pre.get(loc, ('?',))) != TRUE:
                continue
            me = ('lv', e.id, loc)
            good = True
            for bd in e.bodies:
                f = dict(bd['facts'])
                if bd['kind'] not in ('next', 'n', 'c', 'continue', 'break', 'b'):
                    good = False
                    continue
                u = bd['upd'].get(loc, me)
                keeps = f.get(('b', me)) is True
                if u[0] == 'and' and me in u[1:] and len(u) == 3:
                    u = u[1] if u[2] == me else u[2]
                    keeps = True
                elif f.get(('b', me)) is False:
                    good = good and u in (me, FALSE)
                    continue
                if u == me:
                    u = TRUE
                elif u != FALSE and not keeps:
                    # a later pair makes up for an earlier one that differs
                    good = False
                if u in (TRUE, FALSE):
                    good = good and elements_equal(f, a, b, mp) is (u == TRUE)
                else:
                    good = good and elements_equal({('b', u): True}, a, b, mp) is True
            if good:
                r[me] = e
    return r


def visits_whole(e, conts):
    if not e.full:
        return False
    if e.cont is not None:
        return e.cont in conts
    bs = [t for g in e.guard for t, v in g]
    return any(size(k) in to_lin(t[1])[1] for t in bs if t[0] in ('lt0', 'eq0') for k in conts)


def says_equal_seq(facts, a, b):
    for t, v in facts.items():
        if t in (('seqeq', a, b), ('seqeq', b, a)):
            return v
    return None


def pred_ok(o, a, b, mp):
    facts, evs, v = o
    f = dict(facts)
    el, k = None, not mp
    for t, w in list(f.items()) + ([(('b', v), True)] if v not in (TRUE, FALSE) else []):
        names = {y[0] for y in subterms(t) if y[0] in ('elemA', 'elemB')}
        if t[0] == 'b' and t[1][0] == 'res' and t[1][1] == RAW + '::operator==' and names == {'elemA', 'elemB'}:
            el = w
        elif t[0] == 'eq' and names == {'elemA', 'elemB'} and mp and 'first' in repr(t):
            k = w
    if v == TRUE:
        return el is True and k is True
    if v == FALSE:
        return el is False or k is False
    return el is True and k is True


def c17(c):
    r = Raw(c)
    if not r.distinct():
        return
    P0 = ('p', 0)
    f = c.one(RAW + '::operator==', 1)
    eq = 'two datagrams are equal exactly when they have the same type and equal content'
    for k in KINDS:
        for o in KINDS:
            for x in r.run(f, k, args=[pair_arg(r, o)], more=lambda st, fr: st.facts.update({('null', ('fld', P0, r.value)): False})):
                if not c.ob(x.kind == 'return', 'comparing does not fail', x.val.src if x.kind == 'throw' else f, outcome(x)):
                    continue
                unchanged(c, r, f, k, x, 'comparing changes nothing')
                i = r.init(k, THIS)
                for v, facts in truth(x):
                    if k != o:
                        ok = v is False
                    elif k == 'Empty':
                        ok = v is True
                    elif k == 'Value':
                        ok = any(t[0] == 'b' and t[1][0] == 'res' and base_name(t[1][1]) == 'Equals' and w is v and
                                 {t[1][2]} <= {(deref_init(i[r.value]), ('fld', P0, r.value)), (deref_init(('fld', P0, r.value)), i[r.value])} for t, w in facts.items())
                    else:
                        n = r.list if k == 'List' else r.dict
                        ok = containers_equal(c, r, f, x, v, facts, i[n], ('fld', P0, n), k == 'Dictionary')
                    c.ob(ok, eq, f, '%s and %s: %s when %s' % (k, o, v, text(x) or 'compared'))
                c.ob(bool(truth(x)), eq, f, '%s and %s: %s' % (k, o, outcome(x)))
    n = 0
    for f in c.prog.methods.get(DATA, []):
        if base_name(f['q']) not in ('Equals', 'operator=='):
            continue
        ty = f['q'][:f['q'].rindex('::')]
        m = [g['n'] for g in c.prog.fields(DATA)][0]
        mine = ('fld', ('init', THIS), m)
        n += 1
        for x in c.run(f, DataPolicy()):
            for v, facts in truth(x):
                if base_name(f['q']) == 'Equals':
                    cast = ('dyncast', ty, P0)
                    fit = facts.get(('null', cast))
                    e = says_equal(facts, ('fld', deref_init(cast), m), mine)
                    ok = (fit is False and e is True) if v else (fit is True or e is False)
                else:
                    e = says_equal(facts, ('fld', P0, m), mine)
                    ok = e is v
                c.ob(ok, 'two values are equal exactly when they have the same type and content', f, '%s when %s' % (v, text(x)))
    c.ob(n >= 4, 'values of every type can be compared', c.any(RAW + '::operator==')[0], str(n))
    for f in c.any(DG + '::operator==', 1):
        a, b = deref_init(('fld', ('init', THIS), r.inner)), deref_init(('fld', P0, r.inner))
        for x in c.run(f, EqPolicy()):
            for v, facts in truth(x):
                e = says_equal(facts, a, b, RAW)
                c.ob(e is v, 'datagrams are compared by their content', f, '%s when %s' % (v, text(x)))
    for cls in (MSG, 'lp::LampPostConfiguration', 'lp::PluginManagerConfiguration'):
        for f in c.any(cls + '::operator==', 1):
            leaves = list(leaf_fields(c, cls, ('init', THIS), P0))
            for x in c.run(f, EqPolicy()):
                for v, facts in truth(x):
                    es = [says_equal(facts, a, b, DG if t == DG else None) for a, b, t in leaves]
                    seqs = [e for e in x.events if e.k == 'equal']
                    whole = all(e.n == 4 or says_equal(facts, size(e.its[0][2]), size(e.its[2][2])) is True for e in seqs)
                    ok = all(e is True for e in es) and whole if v else any(e is False for e in es)
                    c.ob(ok, 'messages and configurations are equal exactly when every part is', f, '%s: %s when %s' % (cls, v, text(x)))
    for cls in [k for k in c.prog.methods if k.startswith('lp::')]:
        for f in c.prog.methods[cls]:
            if base_name(f['q']) != 'operator!=' or len(f['pt']) != 1:
                continue
            q = f['q'].replace('operator!=', 'operator==')

            class NotPolicy(DataPolicy):
                opaque = (q,)
            for x in c.run(f, NotPolicy()):
                for v, facts in truth(x):
                    es = [w for t, w in facts.items() if t[0] == 'b' and t[1][0] == 'res' and t[1][1] == q and set(t[1][2]) == {('init', THIS), P0}]
                    c.ob(es == [not v], 'different is the opposite of equal', f, '%s when %s' % (v, text(x)))


def leaf_fields(c, cls, a, b, depth=0):
    for g in c.prog.fields(cls):
        t = g['t']
        x, y = select(a, g['n']), select(b, g['n'])
        if t in c.prog.classes and t.startswith('lp::') and t != DG and depth < 3:
            yield from leaf_fields(c, t, x, y, depth + 1)
        else:
            yield x, y, t
