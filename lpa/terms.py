"""The abstract values: immutable terms (value numbering). Two program values are
considered equal exactly when their terms are."""

NULL = ('null',)
# booleans are not the integers 0 and 1 (in Python True == 1)
TRUE = ('c', True, 'bool')
FALSE = ('c', False, 'bool')
EMPTY = ('empty',)


def C(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    return ('c', v)


def is_const(t):
    return t[0] == 'c'


def is_int(t):
    return t[0] in ('lin', 'size', 'ind') or (t[0] == 'c' and type(t[1]) is int)


# ---- linear integer terms -------------------------------------------------
def to_lin(t):
    """-> (const, {term: coef})"""
    if t[0] == 'c' and not isinstance(t[1], str) and t[1] is not None and not isinstance(t[1], float):
        return int(t[1]), {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def from_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def add(a, b, s=1):
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + s * v
    return from_lin(ca + s * cb, da)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    if not da:
        return from_lin(ca * cb, {k: v * ca for k, v in db.items()})
    if not db:
        return from_lin(ca * cb, {k: v * cb for k, v in da.items()})
    x, y = sorted((a, b), key=repr)
    return ('op', '*', x, y)


# ---- strings / sequences --------------------------------------------------
def cat(a, b):
    xs = (a[1] if a[0] == 'cat' else (a,)) + (b[1] if b[0] == 'cat' else (b,))
    r = []
    for x in xs:
        if x == C('') or x == EMPTY:
            continue
        if r and is_const(r[-1]) and is_const(x) and isinstance(x[1], str) and isinstance(r[-1][1], str):
            r[-1] = C(r[-1][1] + x[1])
        else:
            r.append(x)
    if not r:
        return C('')
    if len(r) == 1:
        return r[0]
    return ('cat', tuple(r))


def size(t):
    if t == EMPTY:
        return C(0)
    if t[0] == 'c' and isinstance(t[1], str):
        return C(len(t[1].encode()))
    if t[0] == 'cat':
        r = C(0)
        for x in t[1]:
            r = add(r, size(x))
        return r
    if t[0] == 'app' or t[0] == 'pre':
        return add(size(t[1]), C(1))
    return ('size', t)


# ---- records --------------------------------------------------------------
def select(t, f):
    """field f of record value t"""
    if t[0] == 'rec':
        for n, v in t[2]:
            if n == f:
                return v
        return select(t[1], f)
    return ('fld', t, f)


def with_field(t, f, v):
    if t[0] == 'rec':
        fs = tuple((n, x) for n, x in t[2] if n != f)
        return ('rec', t[1], tuple(sorted(fs + ((f, v),), key=lambda p: p[0])))
    return ('rec', t, ((f, v),))


def sel_at(t, k):
    """element k of container value t"""
    if t[0] == 'put':
        if t[2] == k:
            return t[3]
        if is_const(t[2]) and is_const(k):
            return sel_at(t[1], k)
    if t[0] == 'app' and k[0] == 'c' and type(k[1]) is int:
        xs, u = [], t
        while u[0] == 'app':
            xs.append(u[2])
            u = u[1]
        if u == EMPTY and 0 <= k[1] < len(xs):
            return xs[-1 - k[1]]
    if t[0] == 'del' and t[2] != k and is_const(t[2]) and is_const(k):
        return sel_at(t[1], k)
    return ('at', t, k)


def with_at(t, k, v):
    if t[0] == 'put' and t[2] == k:
        return ('put', t[1], k, v)
    return ('put', t, k, v)


def key_of(cont, pos):
    if pos[0] == 'pos':
        return pos[1]
    return ('key', cont, pos)


def map_entry(cont, pos):
    k = key_of(cont, pos)
    return ('rec', ('zero', 'pair'), (('first', k), ('second', sel_at(cont, k))))


def path_get(t, path):
    for p in path:
        if isinstance(p, str):
            t = select(t, p)
        elif p[0] == 'at':
            t = sel_at(t, p[1])
        elif p[0] == 'ent':
            t = map_entry(t, p[1])
        elif p[0] == 'front':
            t = seq_front(t)
        else:
            t = (p[0], t)
    return t


def seq_front(t):
    if t[0] == 'pre':
        return t[2]
    if t[0] == 'app' and t[1] == EMPTY:
        return t[2]
    return ('front', t)


def path_set(t, path, v):
    if not path:
        return v
    p, rest = path[0], path[1:]
    if isinstance(p, str):
        return with_field(t, p, path_set(select(t, p), rest, v))
    if p[0] == 'at':
        return with_at(t, p[1], path_set(sel_at(t, p[1]), rest, v))
    if p[0] == 'ent':
        k = key_of(t, p[1])
        if rest and rest[0] == 'second':
            return with_at(t, k, path_set(sel_at(t, k), rest[1:], v))
        return ('mut', 'entry', t, v)
    return ('mut', p[0], t, path_set(path_get(t, (p,)), rest, v))


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            st.extend(y for y in x if isinstance(y, tuple))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def replace(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(replace(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t


def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    if depth > 8:
        return '...'
    s = lambda x: show(x, depth + 1)
    if k == 'c':
        return repr(t[1])
    if k == 'null':
        return 'null'
    if k == 'init':
        return s(t[1])
    if k == 'fld':
        return s(t[1]) + '.' + t[2]
    if k == 'this':
        return 'this'
    if k == 'p':
        return 'arg%s' % (t[1],)
    if k == 'deref':
        return '*' + s(t[1])
    if k == 'addr':
        return '&' + show_loc(t[1])
    if k == 'lin':
        r = ' + '.join(('%s*' % c if c != 1 else '') + s(x) for x, c in t[2])
        return '(' + r + (' %+d' % t[1] if t[1] else '') + ')'
    if k == 'lambda':
        return 'lambda(' + t[1].split('#')[0].split('/')[-1] + ')'
    return str(k) + '(' + ', '.join(s(x) for x in t[1:]) + ')'


def show_loc(l):
    root, path = l
    r = show(root)
    for p in path:
        r += '.' + p if isinstance(p, str) else '[' + show(p) + ']'
    return r


# ---- texts that start with a name -----------------------------------------
def prefix_truth(facts, mark, s):
    """whether the text mark, a name and one more character, stands in front of s, told by the facts of a path"""
    n, ch = (mark[1][0], mark[1][1][1]) if mark[0] == 'cat' and len(mark[1]) == 2 and is_const(mark[1][1]) else (None, None)
    if n is None or len(ch) != 1:
        return facts.get(('prefix', mark, s))
    name, sep = facts.get(('prefix', n, s)), None
    for a, v in facts.items():
        if a == ('prefix', mark, s):
            return v
        if a[0] == 'eq0' and a[1] in (add(('at', s, size(n)), C(-ord(ch))), sub(C(ord(ch)), ('at', s, size(n)))):
            sep = v
        if a[0] == 'lt0':
            # what the comparison says about size(s) - size(n)
            k, m = to_lin(sub(size(s), size(n)))
            k2, m2 = to_lin(a[1])
            if v and m2 == m and k2 >= -1:            # size(s) - size(n) < -k2 <= 1
                return False
            if not v and m2 == {x: -y for x, y in m.items()} and k2 >= 0:   # size(n) - size(s) + k2 >= 0
                return False
    if name is False or sep is False:
        return False
    return True if name and sep else None


def marks(facts):
    """the (name and character, text) pairs some fact looks at"""
    for a in facts:
        if a[0] == 'eq0':
            k, m = to_lin(a[1])
            for t, n in m.items():
                if len(m) == 1 and abs(n) == 1 and t[0] == 'at' and t[2][0] == 'size' and 0 < -k * n < 128:
                    yield cat(t[2][1], C(chr(-k * n))), t[1]


def common(fs):
    """the facts that hold in all of fs"""
    f = dict(fs[0])
    for g in fs[1:]:
        f = {k: v for k, v in f.items() if g.get(k) == v}
    for mark, s in {m for g in fs for m in marks(g)}:
        vs = {prefix_truth(g, mark, s) for g in fs}
        if len(vs) == 1 and None not in vs:
            f[('prefix', mark, s)] = vs.pop()
    return f
