"""Structured abstract interpreter over the resolved AST.

For an entry function it computes the set of abstract paths: per path the atoms
decided by the branches (facts), the abstract store, and the sequence of events
(calls, field accesses, lock operations, throws, allocations...). Calls to functions of
the repository are followed (lambdas and std::function values included), a loop is
summarised once from a widened state: every location its body changes is replaced by a
loop symbol, variables that step by a constant become induction terms, and the body's
own path set hangs off one 'loop' event. Branches are decided only by syntactic
identity of terms and a few closed rules (no solver, nothing is executed).
"""
import re
from .terms import *
from .prog import base_name, AnalysisError


def fresh_id(t):
    """an identifier that was just made (rule C25: it is random), or made from one"""
    return isinstance(t, tuple) and (t[:2] == ('res', 'lp::utilities::Uuid::CreateUuid') or any(fresh_id(a) for a in t))




class L:
    """a reference to an abstract location"""
    __slots__ = ('root', 'path', 'cls', 'ty', 'moved', 'cst')

    def __init__(s, root, path=(), cls=None, ty='', moved=False):
        s.root, s.path, s.cls, s.ty, s.moved = root, path, cls, ty, moved

    @property
    def loc(s):
        return (s.root, s.path)

    def sub(s, p, cls=None, ty=''):
        if s.path and isinstance(s.path[-1], tuple) and s.path[-1][0] == 'ent' and p == 'second':
            return L(s.root, s.path[:-1] + (('at', s.path[-1][2]),), s.cls, ty)
        return L(s.root, s.path + (p,), cls if isinstance(p, str) else s.cls, ty)

    def __repr__(s):
        return 'L' + show_loc(s.loc)


class St:
    __slots__ = ('store', 'env', 'facts', 'ev', 'held', 'n', 'guard')

    def __init__(s):
        s.store, s.env, s.facts, s.ev, s.held, s.n, s.guard = {}, {}, {}, None, (), 0, {}

    def copy(s):
        t = St()
        t.store, t.env, t.facts, t.ev, t.held, t.n, t.guard = dict(s.store), dict(s.env), dict(s.facts), s.ev, s.held, s.n, dict(s.guard)
        return t

    def uid(s):
        s.n += 1
        return s.n

    def events(s):
        r = []
        e = s.ev
        while e is not None:
            r.append(e[1])
            e = e[0]
        r.reverse()
        return r


class Ev:
    """one event; k: kind, d: payload dict, src: (file, line, function)"""
    __slots__ = ('k', 'd', 'src', 'held', 'facts', 'text')

    def __init__(s, k, src, held, d, facts=None):
        s.k, s.src, s.held, s.d, s.facts, s.text = k, src, held, d, facts, None

    def key(s):
        """the text of the event, made once (again if something was added to it)"""
        if s.text is None or s.text[0] != len(s.d):
            s.text = (len(s.d), repr(s))
        return s.text[1]

    def __getattr__(s, n):
        try:
            return s.d[n]
        except KeyError:
            return None

    def __repr__(s):
        return '%s@%s:%s %s' % (s.k, s.src[0].split('/')[-1], s.src[1], {k: (show(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else v) for k, v in s.d.items()})


class Frame:
    __slots__ = ('f', 'id', 'this', 'stack', 'throws')

    def __init__(s, f, id, this, stack):
        s.f, s.id, s.this, s.stack = f, id, this, stack


class Exc:
    def __init__(s, tt, bases, args, val, src):
        s.tt, s.bases, s.args, s.val, s.src = tt, bases, args, val, src

    def __repr__(s):
        return 'Exc(%s @%s)' % (s.tt, s.src)


class Out:
    """a path's end"""
    __slots__ = ('st', 'kind', 'val')

    def __init__(s, st, kind, val=None):
        s.st, s.kind, s.val = st, kind, val


class Policy:
    """what a client wants from the interpretation"""
    model_datagram = True     # Datagram as a dictionary value (its own rules check that it is one)
    opaque = ()               # qualified-name prefixes that are not followed
    opaque_default = ('lp::log::Log::', 'lp::utilities::Uuid::CreateUuid', 'lp::exceptions::')
    deep = ()                 # classes whose copy operations are followed, not treated as identity
    depth = 14
    max_states = 6000
    reads = False             # record 'acc' events for reads
    strict = False            # operations of the standard library fail where they are not shown not to
    quiet_atomics = False     # no other thread changes an atomic meanwhile
    devirt = True

    def follow(self, f, caller=None):
        q = f['q']
        if f.get('lam'):
            return True
        # what is private to the class that is looked at is a part of how its operation is written
        own = caller is not None and f.get('acc') == 2 and f.get('cls') and caller['q'].startswith(f['cls'] + '::')
        for p in self.opaque + self.opaque_default:
            if q.startswith(p) and not (own and p.endswith('::')):
                return False
        return True

    def throws(self, ev):
        """exceptions (type, bases) an opaque call may raise"""
        if self.strict and re.match(r'std::(__cxx11::)?sto(i|l|ll|ul|ull|f|d|ld)$', ev.q):
            return [(t, ('std::logic_error', 'std::exception')) for t in ('std::invalid_argument', 'std::out_of_range')]
        return []

    def dispatch(self, interp, st, node, f, recv):
        return None


LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock')
PTRS = ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__weak_ptr', 'std::__uniq_ptr_impl')
ITER_NAMES = ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'crbegin', 'rend', 'crend')
PASS = {'move', 'forward', 'move_if_noexcept', 'as_const', 'ref', 'cref', 'addressof', 'get_temporary'}
SHOWS = ('sigaction', 'bsd_signal', 'zmq_setsockopt')      # what their pointers point at is kept with the event
INTY = ('int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'unsigned char', 'char', 'short', 'long long', 'unsigned long long', 'signed char', 'unsigned short')


NPOS = ('init', ('glob', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>::npos'))


def recv_shrinks(st, t, k):
    """k is a position found in the text t"""
    return k[0] == 'sfind' and k[2] == t and st.facts.get(('eq0', sub(NPOS, k))) is False or is_const(k) and k[1] == 0


def is_map(t):
    t = t.replace('const ', '')
    return t.startswith(('std::map<', 'std::unordered_map<', 'std::multimap<')) or '_Rb_tree_iterator<std::pair' in t or '_Rb_tree_const_iterator<std::pair' in t or '_Node_iterator<std::pair' in t or '_Node_const_iterator<std::pair' in t


def fn_ptr_name(t):
    return t


def bare(t):
    return t[6:] if t.startswith('const ') else t


class Interp:
    def __init__(self, prog, policy=None):
        self.p = prog
        self.pol = policy or Policy()
        self.collect = None      # current list receiving thrown states
        self.covered = set()     # functions whose body was interpreted
        self.ncalls = 0
        self.mcls = {}           # mutex location -> class that declares it
        self.nloops = 0

    # ------------------------------------------------------------------ events
    def emit(self, st, k, node, fr, **d):
        src = (fr.f['file'], node.get('l', fr.f['l']) if node else fr.f['l'], fr.f['q'])
        e = Ev(k, src, st.held, d, st.facts)
        st.ev = (st.ev, e)
        return e

    # ------------------------------------------------------------------- store
    def read(self, st, v, node=None, fr=None):
        if not isinstance(v, L):
            return v
        root, path = v.root, v.path
        t = path_get(st.store.get(root, ('init', root)), path)
        if fr is not None and self.shared(root):
            self.note(st, v)
            if self.pol.reads:
                self.emit(st, 'acc', node, fr, rw='r', loc=v.loc, cls=v.cls, ty=v.ty)
        if v.moved:
            self.rawset(st, v, ('movedfrom', t))
        return t

    def shared(self, root):
        return root[0] in ('this', 'deref', 'obj', 'glob', 'el')

    def note(self, st, v):
        for m in st.held:
            if m[0] == v.root:
                st.guard[m] = st.guard.get(m, frozenset()) | {v.loc}

    def rawset(self, st, v, t):
        root = v.root
        st.store[root] = path_set(st.store.get(root, ('init', root)), v.path, t) if v.path else t

    def write(self, st, v, t, node, fr, via=None):
        if not isinstance(v, L):
            return
        old = path_get(st.store.get(v.root, ('init', v.root)), v.path)
        self.rawset(st, v, t)
        if self.shared(v.root):
            self.note(st, v)
            self.emit(st, 'acc', node, fr, rw='w', loc=v.loc, val=t, old=old, cls=v.cls, ty=v.ty, via=via)

    def deref(self, st, t, ty='', node=None, fr=None, why='deref'):
        """location a pointer term points to"""
        if t[0] == 'addr':
            r, p = t[1]
            return L(r, p, None, ty)
        if t[0] in ('lockw', 'weak'):
            base = t[1]
            if base[0] == 'addr':
                return L(base[1][0], base[1][1], None, ty)
            return L(('deref', base), (), None, ty)
        if t[0] == 'it':
            _, cl, cv, pos, mp = t
            if cl is not None:
                if mp:
                    return L(cl[0], cl[1] + (('ent', pos, key_of(cv, pos)),), None, ty)
                return L(cl[0], cl[1] + (('at', pos),), None, ty)
            r = ('tmpel', t)
            st.store[r] = map_entry(cv, pos) if mp else sel_at(cv, pos)
            return L(r, (), None, ty)
        return L(('deref', t), (), None, ty)

    # ------------------------------------------------------------------- facts
    def decide(self, st, a):
        """True/False/None for atom a in st"""
        if a is True or a is False:
            return a
        f = st.facts
        if a in f:
            return f[a]
        k = a[0]
        if k == 'eq':
            x, y = a[1], a[2]
            for u, c in ((x, y), (y, x)):
                if is_const(c):
                    for b, val in f.items():
                        if val and b[0] == 'eq' and ((b[1] == u and is_const(b[2])) or (b[2] == u and is_const(b[1]))):
                            return False
            # equal to the same third term
            return None
        if k in ('eq0', 'lt0'):
            c, d = to_lin(a[1])
            kd = tuple(sorted(d.items(), key=repr))
            nd = tuple(sorted(((t, -n) for t, n in d.items()), key=repr))
            lo, hi, ne = None, None, set()
            # value v of the linear part: a is (v + c == 0) or (v + c < 0)
            if len(kd) == 1 and kd[0][0][0] == 'size':
                if kd[0][1] == 1:
                    lo = 0
                elif kd[0][1] == -1:
                    hi = 0
            for b, val in f.items():
                if b[0] == 'empty' and len(kd) == 1 and kd[0][0] == ('size', b[1]) and abs(kd[0][1]) == 1:
                    s = kd[0][1]
                    if val:
                        lo = hi = 0
                    elif s == 1:
                        lo = max(lo, 1) if lo is not None else 1
                    else:
                        hi = min(hi, -1) if hi is not None else -1
                if b[0] not in ('eq0', 'lt0'):
                    continue
                cb, db = to_lin(b[1])
                kb = tuple(sorted(db.items(), key=repr))
                if kb == kd:
                    sgn = 1
                elif kb == nd:
                    sgn = -1
                else:
                    continue
                if b[0] == 'eq0':
                    v = -cb * sgn
                    if val:
                        lo = hi = v
                    else:
                        ne.add(v)
                elif sgn == 1:   # v + cb < 0
                    if val:
                        hi = -cb - 1 if hi is None else min(hi, -cb - 1)
                    else:
                        lo = -cb if lo is None else max(lo, -cb)
                else:            # -v + cb < 0
                    if val:
                        lo = cb + 1 if lo is None else max(lo, cb + 1)
                    else:
                        hi = cb if hi is None else min(hi, cb)
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
            if k == 'eq0':
                if -c in ne or (lo is not None and -c < lo) or (hi is not None and -c > hi):
                    return False
                if lo is not None and lo == hi == -c:
                    return True
            else:
                if hi is not None and hi + c < 0:
                    return True
                if lo is not None and lo + c >= 0:
                    return False
            return None
        if k == 'empty':
            r = self.decide_lin_empty(st, a)
            if r is not None:
                return r
            for b, val in f.items():
                if val and b[0] == 'in' and b[2] == a[1]:
                    return False
                if val and b[0] == 'eq' and ((b[1] == a[1] and is_const(b[2])) or (b[2] == a[1] and is_const(b[1]))):
                    c = b[2] if is_const(b[2]) else b[1]
                    return c == C('')
        if k == 'in' and f.get(('empty', a[2])):
            return False
        if k == 'null' and a[1][0] == 'lockw' and f.get(('null', ('weak', a[1][1]))) is not None:
            return f[('null', ('weak', a[1][1]))] or None
        return None

    def decide_lin_empty(self, st, a):
        s = ('size', a[1])
        for b, val in st.facts.items():
            if b[0] in ('eq0', 'lt0'):
                c, d = to_lin(b[1])
                if set(d) == {s}:
                    n = d[s]
                    if b[0] == 'lt0' and val and n == -1 and c >= 0:
                        return False
                    if b[0] == 'eq0' and val:
                        return (-c // n if n > 0 else c // -n) == 0
        return None

    def assume(self, st, a, val):
        """[states] in which atom a has truth value val (at most one)"""
        d = self.decide(st, a)
        if d is not None:
            return [st] if d == val else []
        s = st.copy()
        s.facts[a] = val
        return [s]

    def fork(self, st, a):
        """[(state, bool)]"""
        d = self.decide(st, a)
        if d is not None:
            return [(st, d)]
        s, t = st.copy(), st
        s.facts[a] = True
        t = st.copy()
        t.facts[a] = False
        return [(s, True), (t, False)]

    # --------------------------------------------------------- atom construction
    def null_atom(self, t):
        """(atom, polarity): atom==polarity means t is null"""
        k = t[0]
        if k == 'null' or t == C(0) or t == C(False):
            return (True, True)
        if k in ('addr', 'lambda', 'func', 'new'):
            return (False, True)
        if k == 'weak':
            return self.null_atom(t[1])
        if k == 'at' and t[1] == EMPTY:
            return (True, True)
        return (('null', t), True)

    def empty_atom(self, t):
        if t == EMPTY or t == C('') or t[0] == 'movedfrom' and not True:
            return True
        k = t[0]
        if k == 'zero':
            return True
        if k == 'c' and isinstance(t[1], str):
            return t[1] == ''
        if k in ('app', 'pre', 'put', 'ins'):
            return False
        if k == 'cat' and any(is_const(x) for x in t[1]):
            return False
        return ('empty', t)

    def eq_atom(self, a, b, integral=False):
        """-> (atom, polarity)"""
        if a == b and a[0] not in ('c',) or a == b:
            return (True, True)
        if a[0] == 'it' or b[0] == 'it':
            return self.iter_eq(a, b)
        if NULL in (a, b):
            return self.null_atom(a if b == NULL else b)
        for x, y in ((a, b), (b, a)):
            if x in (TRUE, FALSE):
                if y in (TRUE, FALSE):
                    return (x == y, True)
                at, pol = self.truth_atom(y)
                return (at, pol == (x == TRUE))
            if x in (C(''), EMPTY):
                return (self.empty_atom(y), True)
        if is_const(a) and is_const(b):
            return (a[1] == b[1] and type(a[1]) == type(b[1]) or a[1] == b[1], True)
        if a[0] == 'addr' and b[0] == 'addr':
            return (False, True)
        for x, y in ((a, b), (b, a)):
            if x[0] == 'cmp' and y == C(0):
                return self.eq_atom(x[1], x[2])
            if x[0] == 'sfind' and y == C(0) and (x[1] == 'find' and (len(x[3]) == 1 or x[3][1:] == (C(0),)) or x[1] == 'rfind' and x[3][1:] == (C(0),)) and not (is_const(x[3][0]) and isinstance(x[3][0][1], int)):
                return (('prefix', x[3][0], x[2]), True)
        if integral or is_int(a) or is_int(b):
            d = sub(a, b)
            c, m = to_lin(d)
            if not m:
                return (c == 0, True)
            if len(m) == 1:
                (k, n), = m.items()
                if k[0] == 'size' and c == 0:
                    return (self.empty_atom(k[1]), True)
            ks = sorted(m, key=repr)
            if m[ks[0]] < 0:
                d = mul(d, C(-1))
            return (('eq0', d), True)
        # starts-with idioms
        for x, y in ((a, b), (b, a)):
            if x[0] == 'substr' and x[2] == C(0) and x[3] == size(y):
                return (('prefix', y, x[1]), True)
        x, y = sorted((a, b), key=repr)
        return (('eq', x, y), True)

    def iter_eq(self, a, b):
        if a[0] != 'it' or b[0] != 'it':
            x, y = sorted((a, b), key=repr)
            return (('eq', x, y), True)
        pa, pb = a[3], b[3]
        for p, q, it in ((pa, pb, a), (pb, pa, b)):
            if p[0] in ('pos', 'posv') and q == ('end',):
                at = self.in_atom(p[1], it[2])
                return (at, False)
        if pa[0] == 'posif' or pb[0] == 'posif':
            p = pa if pa[0] == 'posif' else pb
            return (('exists', p[1], p[2]), False)
        ea = size(a[2]) if pa == ('end',) else pa
        eb = size(b[2]) if pb == ('end',) else pb
        return self.eq_atom(ea, eb, True)

    def in_atom(self, k, cont):
        t = cont
        while True:
            if t == EMPTY or t[0] == 'zero':
                return False
            if t[0] in ('put', 'ins') and t[2] == k:
                return True
            if t[0] in ('app', 'pre') and t[2] == k:
                return True
            if t[0] in ('del', 'rem') and t[2] == k:
                return False
            if t[0] in ('put', 'ins', 'app', 'pre', 'del', 'rem') and is_const(t[2]) and is_const(k):
                t = t[1]
                continue
            if t[0] in ('init', 'open', 'fld') and fresh_id(k) and not fresh_id(t):
                return False                        # a new identifier is in nothing that was there before
            return ('in', k, t)

    def truth_atom(self, t):
        """(atom, polarity)"""
        if t[0] == 'c':
            return (bool(t[1]), True)
        if t[0] == 'null':
            return (False, True)
        if t[0] in ('addr', 'lambda', 'func', 'new'):
            return (True, True)
        if t[0] == 'not':
            a, p = self.truth_atom(t[1])
            return (a, not p)
        if t[0] == 'atom':
            return (t[1], t[2])
        if t[0] == 'cmp':
            a, p = self.eq_atom(t[1], t[2])
            return (a, not p)
        return (('b', t), True)

    def lt_atom(self, a, b):
        """a < b"""
        if a[0] == 'it' and b[0] == 'it':
            a = size(a[2]) if a[3] == ('end',) else a[3]
            b = size(b[2]) if b[3] == ('end',) else b[3]
        if is_const(a) and is_const(b):
            try:
                return (a[1] < b[1], True)
            except TypeError:
                pass
        d = sub(a, b)
        c, m = to_lin(d)
        if not m:
            return (c < 0, True)
        if len(m) == 1:
            (k, n), = m.items()
            if k[0] == 'size':
                if n == 1 and c == -1:
                    return (self.empty_atom(k[1]), True)
                if n == -1 and c == 0:
                    return (self.empty_atom(k[1]), False)
                if n == 1 and c >= 0:
                    return (False, True)
        return (('lt0', d), True)

    # ------------------------------------------------------------- conditions
    def cond(self, n, st, fr):
        """[(state, bool)] for a condition expression"""
        k = n['k']
        if k == 'bool':
            return [(st, n['v'])]
        if k == 'un' and n['op'] == '!':
            return [(s, not b) for s, b in self.cond(n['e'], st, fr)]
        if k == 'bin' and n['op'] in ('&&', '||'):
            r = []
            for s, b in self.cond(n['x'], st, fr):
                if b == (n['op'] == '||'):
                    r.append((s, b))
                else:
                    r += self.cond(n['y'], s, fr)
            return r
        if k == 'tobool':
            r = []
            for s, v in self.ev(n['e'], st, fr):
                t = self.read(s, v, n, fr)
                if n.get('ptr'):
                    a, p = self.null_atom(t)
                    p = not p
                else:
                    a, p = self.truth_atom(t)
                    if t[0] in ('size', 'lin', 'ind'):
                        a, p = self.eq_atom(t, C(0), True)
                        p = not p
                r += [(x, b == p) for x, b in self.fork(s, a)]
            return r
        if k == 'bin' and n['op'] in ('==', '!='):
            for y, z in ((n['x'], n['y']), (n['y'], n['x'])):
                while y['k'] == 'cast' and y.get('ck') == 'IntegralCast':
                    y = y['e']
                while z['k'] == 'cast' and z.get('ck') == 'IntegralCast':
                    z = z['e']
                if z['k'] == 'bool' and bare(y.get('t', '')) == 'bool':
                    return [(s, (b == z['v']) == (n['op'] == '==')) for s, b in self.cond(y, st, fr)]
        if k == 'bin' and n['op'] in ('==', '!=', '<', '>', '<=', '>='):
            r = []
            for s, a in self.evr(n['x'], st, fr):
                for s2, b in self.evr(n['y'], s, fr):
                    tx = n['x'].get('t', '')
                    r += self.compare(s2, n['op'], a, b, bare(tx) in INTY or bare(n['y'].get('t', '')) in INTY)
            return r
        r = []
        for s, t in self.evr(n, st, fr):
            a, p = self.truth_atom(t)
            r += [(x, b == p) for x, b in self.fork(s, a)]
        return r

    def compare(self, st, op, a, b, integral=False):
        if op in ('==', '!='):
            at, p = self.eq_atom(a, b, integral)
            if op == '!=':
                p = not p
        elif op == '<':
            at, p = self.lt_atom(a, b)
        elif op == '>':
            at, p = self.lt_atom(b, a)
        elif op == '<=':
            at, p = self.lt_atom(b, a)
            p = not p
        else:
            at, p = self.lt_atom(a, b)
            p = not p
        return [(x, v == p) for x, v in self.fork(st, at)]

    # -------------------------------------------------------------- expressions
    def evr(self, n, st, fr):
        """[(state, term)]"""
        out = []
        for s, v in self.ev(n, st, fr):
            out.append((s, self.read(s, v, n, fr)))
        return out

    def evs(self, nodes, st, fr):
        """evaluate a list left to right: [(state, [values])]"""
        r = [(st, [])]
        for n in nodes:
            r2 = []
            for s, vs in r:
                for s2, v in self.ev(n, s, fr):
                    r2.append((s2, vs + [v]))
            r = self.limit(r2)
        return r

    def limit(self, r):
        if len(r) > self.pol.max_states:
            raise AnalysisError('path limit reached')
        return r

    def ev(self, n, st, fr):
        m = getattr(self, 'x_' + n['k'], None)
        if m is None:
            return self.x_unk(n, st, fr)
        return m(n, st, fr)

    def x_int(self, n, st, fr):
        return [(st, C(int(n['v'])))]

    def x_float(self, n, st, fr):
        return [(st, C(float(n['v'])))]

    def x_bool(self, n, st, fr):
        return [(st, C(n['v']))]

    def x_str(self, n, st, fr):
        return [(st, C(n.get('v', '?')))]

    def x_null(self, n, st, fr):
        return [(st, NULL)]

    def x_zero(self, n, st, fr):
        t = n.get('t', '')
        if bare(t) in INTY:
            return [(st, C(0))]
        if t == 'bool':
            return [(st, FALSE)]
        if t.endswith('*'):
            return [(st, NULL)]
        return [(st, ('zero', t))]

    def x_sizeof(self, n, st, fr):
        return [(st, C(int(n['v'])) if 'v' in n else ('sizeof', n['t']))]

    def x_typeid(self, n, st, fr):
        return [(st, ('typeid', n['l']))]

    def x_this(self, n, st, fr):
        return [(st, fr.this if fr.this is not None else ('unk', 'this'))]

    def x_ref(self, n, st, fr):
        dk = n['dk']
        if dk == 'func':
            return [(st, ('func', n['f']['id'], n['f']['q']))]
        if dk == 'enum':
            return [(st, C(int(n['v'])))]
        if dk == 'glob':
            if 'cv' in n and not n['q'].startswith('std::'):
                v = int(n['cv'])
                return [(st, (TRUE if v else FALSE) if n.get('t', '').endswith('bool') else C(v))]
            g = ('glob', n['q'])
            return [(st, L(g, (), None, n.get('t', '')))]
        if dk in ('parm', 'var'):
            key = (fr.id, n['id'])
            if key in st.env:
                r, p = st.env[key][:2]
                return [(st, L(r, p, st.env[key][2] if len(st.env[key]) > 2 else None, n.get('t', '')))]
            return [(st, L(('v',) + key + (n['n'],), (), None, n.get('t', '')))]
        return [(st, ('unk', n.get('q')))]

    def x_mem(self, n, st, fr):
        r = []
        for s, b in self.ev(n['b'], st, fr):
            if n.get('arrow'):
                t = self.read(s, b, n, fr)
                if t[0] not in ('addr',):
                    self.emit(s, 'deref', n, fr, ptr=t)
                l = self.deref(s, t)
            elif isinstance(b, L):
                l = b
            else:
                if 'f' in n:
                    r.append((s, b))
                    continue
                r.append((s, select(b, n['n'])))
                continue
            if 'f' in n:
                r.append((s, l))
                continue
            out = l.sub(n['n'], n.get('cls'), n.get('t', ''))
            if n.get('ref'):
                t = self.read(s, out)
                out = L(t[1][0], t[1][1], n.get('cls'), n.get('t', '')) if t[0] == 'refto' else L(('deref', t), (), None, n.get('t', ''))
            if l.moved:
                out.moved = True
            if 'mutex' in out.ty:
                self.mcls[out.loc] = n.get('cls')
            r.append((s, out))
        return r

    def dyncast(self, ty, t):
        """the pointer seen as one to ty; an object made here is of a known class"""
        u = t
        while u[0] == 'own':
            u = u[1]
        if u == NULL:
            return NULL
        if u[0] == 'addr' and u[1][1] == () and u[1][0][0] == 'obj':
            have = u[1][0][1][0]
            if have == ty:
                return t
            a, b = have.split('<')[0], ty.split('<')[0]
            if a == b or (a in self.p.classes and b in self.p.classes and b not in self.p.bases(a)):
                return NULL
        return ('dyncast', ty, t)

    def x_cast(self, n, st, fr):
        ck = n['ck']
        r = []
        for s, v in self.ev(n['e'], st, fr):
            if ck in ('BaseToDerived', 'Dynamic', 'BitCast', 'IntegralCast', 'LValueBitCast'):
                if ck == 'Dynamic':
                    t = self.read(s, v, n, fr)
                    r.append((s, self.dyncast(n['t'].rstrip('& *').replace('const ', ''), t)))
                    continue
                if ck == 'IntegralCast':
                    t = self.read(s, v, n, fr)
                    if t in (TRUE, FALSE):
                        t = C(1 if t == TRUE else 0)
                    if is_const(t) and isinstance(t[1], int) and t[1] < 0 and n['t'].startswith('unsigned'):
                        bits = 64 if 'long' in n['t'] else 32
                        t = C(t[1] % (1 << bits))
                    if n.get('narrow') and not is_const(t) and t[0] != 'conv':
                        t = ('conv', n['t'], t)
                    r.append((s, t))
                    continue
                r.append((s, v))
                continue
            t = self.read(s, v, n, fr)
            if is_const(t) and isinstance(t[1], (int, float)):
                if ck == 'IntegralToFloating':
                    t = C(float(t[1]))
                elif ck == 'FloatingToIntegral':
                    t = C(int(t[1]))
                r.append((s, t))
                continue
            if ck in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToPointer', 'PointerToIntegral'):
                r.append((s, ('conv', n['t'], t)))
            else:
                r.append((s, t))
        return r

    def x_tobool(self, n, st, fr):
        return [(s, C(b)) for s, b in self.cond(n, st, fr)]

    def x_bin(self, n, st, fr):
        op = n['op']
        if op in ('&&', '||', '==', '!=', '<', '>', '<=', '>='):
            return [(s, C(b)) for s, b in self.cond(n, st, fr)]
        if op == ',':
            return [(s2, v) for s, _ in self.ev(n['x'], st, fr) for s2, v in self.ev(n['y'], s, fr)]
        r = []
        for s, a in self.evr(n['x'], st, fr):
            for s2, b in self.evr(n['y'], s, fr):
                r.append((s2, self.arith(op, a, b)))
        return r

    def arith(self, op, a, b):
        if a[0] == 'it' and op in ('+', '-') and b[0] != 'it':
            return a[:3] + (add(a[3], b, 1 if op == '+' else -1) if a[3] != ('end',) else add(size(a[2]), b, 1 if op == '+' else -1),) + a[4:]
        if a[0] == 'addr' and op == '+':
            return ('addr', (a[1][0], a[1][1] + (('at', b),)))
        for x in (a, b):
            if x[0] == 'c' and (isinstance(x[1], float) or isinstance(x[1], str)):
                return ('op', op, a, b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if is_const(a) and is_const(b):
            x, y = int(a[1]), int(b[1])
            try:
                v = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y,
                     '/': lambda: x // y, '%': lambda: x % y}[op]()
                return C(v)
            except (KeyError, ZeroDivisionError):
                pass
        if op in ('&', '|', '^') and repr(a) > repr(b):
            a, b = b, a
        return ('op', op, a, b)

    def x_un(self, n, st, fr):
        op = n['op']
        if op == '!':
            return [(s, C(b)) for s, b in self.cond(n, st, fr)]
        r = []
        for s, v in self.ev(n['e'], st, fr):
            if op == '*':
                t = self.read(s, v, n, fr)
                if t[0] not in ('addr', 'it'):
                    self.emit(s, 'deref', n, fr, ptr=t)
                r.append((s, self.deref(s, t, n.get('t', ''))))
            elif op == '&':
                if isinstance(v, L):
                    r.append((s, ('addr', v.loc)))
                else:
                    r.append((s, ('addr', (('tmp', v), ()))))
            elif op in ('++', '--'):
                t = self.read(s, v, n, fr)
                nt = self.arith('+' if op == '++' else '-', t, C(1))
                self.write(s, v, nt, n, fr, via=op)
                r.append((s, t if n.get('post') else v))
            elif op == '-':
                t = self.read(s, v, n, fr)
                r.append((s, C(-t[1]) if is_const(t) and isinstance(t[1], (int, float)) else mul(t, C(-1))))
            elif op == '~':
                t = self.read(s, v, n, fr)
                r.append((s, C(~t[1]) if is_const(t) else ('op', '~', t, t)))
            else:
                r.append((s, self.read(s, v, n, fr)))
        return r

    def x_asg(self, n, st, fr):
        r = []
        op = n['op']
        for s, b in self.evr(n['y'], st, fr):
            for s2, a in self.ev(n['x'], s, fr):
                if op == '=':
                    self.write(s2, a, b, n, fr)
                else:
                    t = self.read(s2, a, n, fr)
                    if op in ('|=', '&=') and n['x'].get('t') == 'bool' or n['x'].get('t') == 'bool':
                        if op == '|=':
                            nt = TRUE if TRUE in (t, b) else (b if t == FALSE else (t if b == FALSE else ('op', '|', t, b)))
                        elif op == '&=':
                            nt = FALSE if FALSE in (t, b) else (b if t == TRUE else (t if b == TRUE else ('op', '&', t, b)))
                        else:
                            nt = self.arith(op[:-1], t, b)
                    else:
                        nt = self.arith(op[:-1], t, b)
                    self.write(s2, a, nt, n, fr, via=op)
                r.append((s2, a))
        return r

    def x_cond(self, n, st, fr):
        r = []
        for s, b in self.cond(n['c'], st, fr):
            r += self.ev(n['x'] if b else n['y'], s, fr)
        return r

    def x_idx(self, n, st, fr):
        r = []
        for s, b in self.ev(n['b'], st, fr):
            for s2, i in self.evr(n['i'], s, fr):
                if isinstance(b, L) and '[' in (b.ty or ''):
                    l = b.sub(('at', i))
                else:
                    t = self.read(s2, b, n, fr)
                    l = self.deref(s2, t).sub(('at', i))
                self.emit(s2, 'index', n, fr, loc=l.loc, i=i)
                r.append((s2, l))
        return r

    def x_ilist(self, n, st, fr):
        r = []
        for s, vs in self.evs(n['a'], st, fr):
            t = EMPTY
            cls = bare(n.get('t', ''))
            fs = self.p.classes[cls]['fields'] if cls in self.p.classes and not self.p.classes[cls]['bases'] else None
            for v in vs:
                t = ('app', t, self.read(s, v, n, fr))
            if fs and len(fs) == len(vs):
                t = ('zero', cls)
                for x, v in zip(fs, vs):
                    t = path_set(t, (x['n'],), self.read(s, v, n, fr))
            if not vs:
                t = ('zero', n.get('t', ''))
            r.append((s, t))
        return r

    def x_unk(self, n, st, fr):
        r = []
        for s, vs in self.evs(n.get('a', []), st, fr):
            r.append((s, ('unk', n.get('cls'), s.uid())))
        return r

    def x_lambda(self, n, st, fr):
        r = [(st, [])]
        for c in n['caps']:
            r2 = []
            for s, caps in r:
                if c.get('this'):
                    r2.append((s, caps + [('this', fr.this)]))
                    continue
                if c['byref']:
                    key = (fr.id, c['id'])
                    loc = s.env[key][:2] if key in s.env else (('v',) + key + (c['n'],), ())
                    r2.append((s, caps + [('ref', c['id'], loc, c['n'])]))
                elif 'init' in c:
                    for s2, t in self.evr(c['init'], s, fr):
                        r2.append((s2, caps + [('val', c['id'], t, c['n'])]))
                else:
                    r2.append((s, caps + [('val', c['id'], ('unk', c['n']), c['n'])]))
            r = r2
        out = []
        for s, caps in r:
            t = ('lambda', n['fn'], tuple(caps))
            self.emit(s, 'lambda', n, fr, fn=n['fn'], caps=tuple(caps))
            out.append((s, t))
        return out

    def x_throw(self, n, st, fr):
        if 'e' not in n or n['e'] is None:
            self.emit(st, 'rethrow', n, fr)
            cur = st.store.get(('curexc',))
            e = Exc(cur[1] if cur else '?', list(cur[2]) if cur else ['?'], (), None, (fr.f['file'], n['l'], fr.f['q']))
            self.collect.append((st, e))
            return []
        e = n['e']
        while e['k'] == 'ctor' and (e['f'].get('copy') or e['f'].get('move')) and len(e['a']) == 1:
            e = e['a'][0]
        nodes = e['a'] if e['k'] == 'ctor' else [e]
        for s, vs in self.evs(nodes, st, fr):
            args = tuple(self.read(s, v, n, fr) for v in vs)
            x = Exc(n['tt'], n.get('bases', [n['tt']]), args, None, (fr.f['file'], n['l'], fr.f['q']))
            self.emit(s, 'throw', n, fr, tt=n['tt'], args=args, bases=tuple(n.get('bases', ())))
            self.collect.append((s, x))
        return []

    def x_new(self, n, st, fr):
        r = []
        sts = [(st, None)]
        if n.get('n'):
            sts = self.evr(n['n'], st, fr)
        for s, cnt in sts:
            root = ('obj', (n['at'], n['l'], s.uid()))
            self.emit(s, 'new', n, fr, at=n['at'], n=cnt, root=root)
            i = n.get('i')
            if i and not n.get('n'):
                for s2 in self.construct(i, L(root), s, fr):
                    r.append((s2, ('addr', (root, ()))))
            else:
                s.store[root] = ('undef', root)
                r.append((s, ('addr', (root, ()))))
        return r

    def x_delete(self, n, st, fr):
        r = []
        for s, t in self.evr(n['e'], st, fr):
            self.emit(s, 'delete', n, fr, ptr=t, arr=bool(n.get('arr')))
            r.append((s, ('c', None)))
        return r

    # ------------------------------------------------------------- construction
    def construct(self, n, dst, st, fr):
        """run initialiser n directly into location dst -> [states]"""
        if n['k'] == 'ctor' and not self.is_copy(n) and self.repo_ctor(n):
            r = []
            f = self.p.funcs[n['f']['id']]
            for s, vs in self.evs(n['a'], st, fr):
                if not dst.path:
                    s.store[dst.root] = ('zero', n['f']['cls'])
                else:
                    self.rawset(s, dst, ('zero', n['f']['cls']))
                for s2, _ in self.inline(f, ('addr', dst.loc), vs, s, fr, n):
                    r.append(s2)
            return r
        r = []
        for s, t in self.evr(n, st, fr):
            if dst.path:
                self.rawset(s, dst, t)
            else:
                s.store[dst.root] = t
            r.append(s)
        return r

    def is_copy(self, n):
        f = n['f']
        return bool((f.get('copy') or f.get('move')) and f.get('cls') not in self.pol.deep)

    def repo_ctor(self, n):
        f = n['f']
        if f['id'] not in self.p.funcs:
            return False
        if self.pol.model_datagram and f.get('cls') == 'lp::messages::Datagram':
            return False
        return self.pol.follow(self.p.funcs[f['id']])

    def x_ctor(self, n, st, fr):
        f = n['f']
        cls = f.get('cls', '')
        if self.is_copy(n) or (f.get('copy') or f.get('move')) and not self.repo_ctor(n):
            r = []
            for s, v in self.ev(n['a'][0], st, fr):
                t = self.read(s, v, n, fr)
                if cls in LOCKS and t[0] == 'lk' and isinstance(v, L):
                    self.rawset(s, v, ('lk', (), False))
                self.emit(s, 'copy', n, fr, cls=cls, val=t) if not cls.startswith('std::') else None
                r.append((s, t))
            return r
        if self.repo_ctor(n):
            r = []
            root = ('tmp', (n['f']['id'], n['l'], st.uid()))
            for s in self.construct(n, L(root), st, fr):
                t = s.store.pop(root, ('zero', cls))
                r.append((s, t))
            return r
        r = []
        for s, vs in self.evs(n['a'], st, fr):
            r += self.std_ctor(n, f, cls, vs, s, fr)
        return r

    def dflt(self, cls):
        if cls in ('std::basic_string',):
            return C('')
        if cls in PTRS or cls == 'std::function':
            return NULL
        if cls in ('std::map', 'std::list', 'std::deque', 'std::vector', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::queue', 'std::multimap'):
            return EMPTY
        return ('zero', cls)

    def std_ctor(self, n, f, cls, vs, st, fr):
        rv = lambda i: self.read(st, vs[i], n, fr)
        nn = [i for i, a in enumerate(n['a']) if not a.get('dflt')]
        if cls == 'lp::messages::Datagram' and self.pol.model_datagram:
            if not vs:
                return [(st, EMPTY)]
            t = rv(0)
            if n['a'][0].get('t', '').endswith('RawDatagramType'):
                return [(st, EMPTY)]
            return [(st, t)]
        if cls in LOCKS:
            ms, adopt, defer = [], False, False
            for v, a in zip(vs, n['a']):
                t = a.get('t', '')
                if 'adopt_lock_t' in t:
                    adopt = True
                elif 'defer_lock_t' in t:
                    defer = True
                elif 'try_to_lock_t' in t:
                    defer = True
                elif isinstance(v, L):
                    ms.append(v.loc)
            if defer:
                return [(st, ('lk', tuple(ms), False))]
            if not adopt:
                for m in ms:
                    self.lock(st, m, n, fr)
            return [(st, ('lk', tuple(ms), True))]
        if cls == 'std::thread':
            args = tuple(self.read(st, v, n, fr) for v in vs)
            self.emit(st, 'thread', n, fr, args=args)
            return [(st, ('thread',) + args if args else ('zero', cls))]
        if cls == 'std::basic_string':
            if not nn:
                return [(st, C(''))]
            if len(nn) == 1:
                return [(st, rv(0))]
            args = tuple(rv(i) for i in nn)
            if args[0][0] == 'it' and args[1][0] == 'it':
                if args[0][3] == C(0) and args[1][3] == ('end',) and args[0][2] == args[1][2]:
                    return [(st, args[0][2])]
                if args[0][2] == args[1][2] and n['a'][0].get('t', '').find('basic_string<char') >= 0:
                    return [(st, self.between(args[0], args[1]))]
                return [(st, ('app1', 'string', args))]
            if n['a'][0].get('t', '').find('basic_string') >= 0 and len(args) >= 2:
                return [(st, self.substr(args[0], args[1], args[2] if len(args) > 2 else None))]
            return [(st, ('app1', 'string', args))]
        if cls in PTRS or cls == 'std::function' or cls == 'std::reference_wrapper':
            if not nn:
                return [(st, NULL)]
            t = rv(0)
            if cls == 'std::weak_ptr' or cls == 'std::__weak_ptr':
                if t == NULL:
                    return [(st, NULL)]
                return [(st, t if t[0] == 'weak' else ('weak', t))]
            if t[0] == 'weak':  # shared_ptr(weak) throws bad_weak_ptr when expired
                return [(st, ('lockw', t[1]))]
            if cls in ('std::shared_ptr', 'std::unique_ptr') and len(nn) > 1:
                d = rv(1)
                self.emit(st, 'deleter', n, fr, ptr=t, deleter=d)
                return [(st, ('own', t, d))]
            if cls == 'std::unique_ptr' and t != NULL:
                return [(st, ('own', t, ('default',)))]
            return [(st, t)]
        if cls in ('std::map', 'std::list', 'std::deque', 'std::vector', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::queue', 'std::multimap', 'std::stack'):
            if not nn:
                return [(st, EMPTY)]
            a = [rv(i) for i in nn]
            if a[0][0] == 'it' and len(a) > 1 and a[1][0] == 'it':
                if a[0][2] == a[1][2] and a[0][3] == C(0) and a[1][3] == ('end',):
                    return [(st, a[0][2])]
                return [(st, ('range', a[0], a[1]))]
            if a[0][0] in ('app', 'empty', 'zero') or len(a) == 1 and a[0][0] not in ('c', 'lin', 'size'):
                return [(st, EMPTY if a[0][0] == 'zero' else a[0])]
            return [(st, ('app1', cls, tuple(a)))]
        if cls == 'std::pair':
            if len(vs) == 2:
                return [(st, ('rec', ('zero', 'pair'), (('first', rv(0)), ('second', rv(1)))))]
            if len(vs) == 1:
                return [(st, rv(0))]
        if cls in ('std::atomic', 'std::__atomic_base', 'std::chrono::duration', 'std::initializer_list', 'std::allocator') or base_name(cls).endswith('iterator') or base_name(cls) in ('_Rb_tree_const_iterator', '_List_const_iterator'):
            if nn:
                t = rv(0)
                return [(st, t)]
            return [(st, ('zero', cls))]
        if not nn:
            return [(st, ('zero', cls))]
        args = tuple(rv(i) for i in range(len(vs)))
        locs = tuple(v.loc if isinstance(v, L) else None for v in vs)
        e = self.emit(st, 'call', n, fr, q=f['q'], id=f['id'], recv=None, rloc=None, args=args, alocs=locs, ctor=True, cls=cls)
        self.opaque_throws(st, e, fr, n)
        if cls.startswith('std::') and len(nn) == 1 and cls in ('std::tuple',):
            return [(st, args[0])]
        return [(st, ('new', cls, args, ))]

    def opaque_throws(self, st, e, fr, n):
        for tt, bases in self.pol.throws(e):
            s = st.copy()
            self.collect.append((s, Exc(tt, bases, (), None, (fr.f['file'], n.get('l'), fr.f['q']))))

    # ------------------------------------------------------------------- locks
    def lock(self, st, m, n, fr):
        self.emit(st, 'lock', n, fr, m=m)
        for loc in st.guard.get(m, ()):
            # another thread may have changed what this mutex guards since we last held it
            self.rawset(st, L(loc[0], loc[1]), ('sh', st.uid(), loc))
        st.guard.pop(m, None)
        st.held = st.held + (m,)

    def unlock(self, st, m, n, fr):
        if m in st.held:
            h = list(st.held)
            h.reverse()
            h.remove(m)
            h.reverse()
            st.held = tuple(h)
        self.emit(st, 'unlock', n, fr, m=m)

    # ------------------------------------------------------------------- calls
    def x_call(self, n, st, fr):
        f = n.get('f')
        if f is None:
            return self.call_value(n, st, fr)
        name = base_name(f['q'])
        cls = f.get('cls', '')
        r = []
        # receiver first, then arguments
        sts = [(st, None)]
        if 'o' in n and n['o'] is not None:
            sts = self.ev(n['o'], st, fr)
        for s0, o in sts:
            if 'o' in n and (n.get('arrow')):
                t = self.read(s0, o, n, fr)
                if t[0] != 'addr' and n['o']['k'] != 'this':
                    self.emit(s0, 'deref', n, fr, ptr=t)
                recv = self.deref(s0, t)
            else:
                recv = o
            if f.get('opc') or n.get('opc'):
                nodes = n['a']
            else:
                nodes = n['a']
            for s, vs in self.evs(nodes, s0, fr):
                r += self.call(n, f, name, cls, recv, vs, s, fr)
        return self.limit(r)

    def call_value(self, n, st, fr):
        """call through a function pointer or an unresolved callee"""
        r = []
        for s, fv in self.evr(n['fe'], st, fr):
            for s2, vs in self.evs(n['a'], s, fr):
                r += self.invoke(fv, vs, n, s2, fr)
        return r

    def invoke(self, fv, vs, n, st, fr):
        """call the callable value fv"""
        if fv[0] == 'own':
            fv = fv[1]
        if fv[0] == 'lambda' and fv[1] in self.p.funcs and self.can_inline(self.p.funcs[fv[1]], fr):
            return self.inline(self.p.funcs[fv[1]], None, vs, st, fr, n, caps=fv[2])
        if fv[0] == 'func' and fv[1] in self.p.funcs and self.can_inline(self.p.funcs[fv[1]], fr):
            f = self.p.funcs[fv[1]]
            if 'cls' in f and not f.get('static') and vs:
                t = self.read(st, vs[0], n, fr)
                return self.inline(f, t, vs[1:], st, fr, n)
            return self.inline(f, None, vs, st, fr, n)
        if fv[0] == 'bind':
            full = []
            for b in fv[2]:
                full.append(vs[b[1] - 1] if b[0] == 'ph' and b[1] - 1 < len(vs) else b)
            return self.invoke(fv[1], full, n, st, fr)
        args = tuple(self.read(st, v, n, fr) for v in vs)
        e = self.emit(st, 'fcall', n, fr, fv=fv, args=args)
        self.opaque_throws(st, e, fr, n)
        r = ('res', 'fcall', fv, args, st.uid())
        if e is not None:
            e.d['res'] = r
        return [(st, r)]

    def can_inline(self, f, fr):
        return self.pol.follow(f, fr.f) and f['id'] not in fr.stack and len(fr.stack) < self.pol.depth

    def call(self, n, f, name, cls, recv, vs, st, fr):
        self.ncalls += 1
        fid = f['id']
        d = self.pol.dispatch(self, st, n, f, recv)
        if d is not None:
            fid = d
        elif f.get('virt') and not n.get('nonvirt') and self.pol.devirt:
            ov = [x for x in self.p.all_overriders(fid) if x in self.p.funcs]
            if fid not in self.p.funcs and len(ov) == 1:
                fid = ov[0]
            elif ov:
                fid = None if not (fid in self.p.funcs and not ov) else fid
        if self.pol.model_datagram and cls == 'lp::messages::Datagram':
            r = self.datagram_call(n, f, name, recv, vs, st, fr)
            if r is not None:
                return r
        if f.get('lam') and isinstance(recv, (L, tuple)):
            t = self.read(st, recv, n, fr)
            return self.invoke(t, vs, n, st, fr)
        if (f.get('casg') or f.get('masg')) and cls not in self.pol.deep:
            t = self.read(st, vs[0], n, fr)
            if cls in LOCKS:
                old = self.read(st, recv)
                if old[0] == 'lk' and old[2]:
                    for m in old[1]:
                        self.unlock(st, m, n, fr)
                if isinstance(vs[0], L):
                    self.rawset(st, vs[0], ('lk', (), False))
            self.write(st, recv, t, n, fr, via='=')
            if f.get('masg') and isinstance(vs[0], L) and cls in ('std::list', 'std::deque', 'std::vector', 'std::map', 'std::queue'):
                pass
            return [(st, recv)]
        if fid and fid in self.p.funcs:
            g = self.p.funcs[fid]
            if self.can_inline(g, fr) and not (g.get('implicit') and g.get('dtor')):
                this = None
                if 'cls' in f and not f.get('static') and not f.get('lam'):
                    if isinstance(recv, L):
                        this = ('addr', recv.loc)
                    else:
                        root = ('tmp', (fid, n['l'], st.uid()))
                        st.store[root] = recv if recv is not None else ('unk', 'recv')
                        this = ('addr', (root, ()))
                return self.inline(g, this, vs, st, fr, n)
        if fid is None or fid in self.p.funcs or f['q'].startswith(('lp::', 'HandleShutdown', 'HookSystem')) :
            # a repository function that is not followed (policy, recursion, virtual with several targets)
            args = tuple(self.read(st, v, n, fr) for v in vs)
            t = self.read(st, recv) if recv is not None else None
            e = self.emit(st, 'call', n, fr, q=f['q'], id=f['id'], recv=t, rloc=recv.loc if isinstance(recv, L) else None, args=args,
                          alocs=tuple(v.loc if isinstance(v, L) else None for v in vs), cls=cls, repo=True,
                          rec=f['id'] in fr.stack or fid in fr.stack, virt=fid is None)
            self.opaque_throws(st, e, fr, n)
            rt = f.get('rt', '')
            if rt == 'void':
                return [(st, ('c', None))]
            pure = ('res', f['q'], (t,) + args, 0 if f.get('const') or not f.get('cls') else st.uid())
            e.d['res'] = pure
            if rt.startswith('std::basic_ostream<') and rt.endswith('&') and name.startswith('operator<<') and vs and isinstance(vs[0], L):
                return [(st, vs[0])]     # printing gives its stream back (looked at in C31)
            if rt.endswith('&') and not rt.endswith('&&'):
                return [(st, L(('deref', pure), ()))]
            return [(st, pure)]
        return self.std_call(n, f, name, cls, recv, vs, st, fr)

    def inline(self, f, this, vs, st, fr, n, caps=None):
        self.covered.add(f['id'])
        st = st.copy()
        nf = Frame(f, (fr.id[0], st.uid()) if False else ('f', st.uid()), this, fr.stack + (f['id'],))
        for i, p in enumerate(f['params']):
            if i < len(vs):
                v = vs[i]
                if p.get('ref') and isinstance(v, L):
                    st.env[(nf.id, p['id'])] = (v.root, v.path, v.cls)
                    continue
                t = self.read(st, v, n, fr)
            elif p.get('dflt') is not None:
                rr = self.evr(p['dflt'], st, fr)
                t = rr[0][1] if rr else ('unk', p['n'])
            else:
                t = ('unk', p['n'])
            st.store[('v', nf.id, p['id'], p['n'])] = t
        if caps is not None:
            for c in caps:
                if c[0] == 'this':
                    nf.this = c[1]
                elif c[0] == 'ref':
                    st.env[(nf.id, c[1])] = c[2]
                else:
                    st.store[('v', nf.id, c[1], c[3])] = c[2]
        self.emit(st, 'enter', n, fr, f=f['id'], q=f['q'], this=this, args=tuple(path_get(st.store.get(v.root, ('init', v.root)), v.path) if isinstance(v, L) else v for v in vs),
                  alocs=tuple(v.loc if isinstance(v, L) else None for v in vs), fields=tuple((v.cls, v.path) if isinstance(v, L) else None for v in vs))
        outs = self.run_body(f, nf, st)
        r = []
        rref = f.get('rt', '').endswith('&') and not f.get('rt', '').endswith('&&')
        for o in outs:
            v = o.val
            if not rref and isinstance(v, L):
                v = self.read(o.st, v, n, nf)
            self.emit(o.st, 'leave', n, fr, f=f['id'], q=f['q'], val=v if not isinstance(v, L) else None)
            for k in [k for k in o.st.store if k[0] == 'v' and k[1] == nf.id]:
                if not (isinstance(v, L) and v.root == k):
                    # keep what a lambda may still refer to
                    pass
            r.append((o.st, v if v is not None else ('c', None)))
        return self.limit(r)

    def run_body(self, f, fr, st):
        """constructor initialisers and body -> [Out] of kind 'r'"""
        sts = [st]
        if f.get('isctor'):
            for i in f['inits']:
                nx = []
                for s in sts:
                    nx += self.member_init(i, f, fr, s)
                sts = nx
        outs = []
        for s in sts:
            for o in self.ex(f['body'], s, fr):
                outs.append(Out(o.st, 'r', o.val if o.kind == 'r' else None))
        return outs

    def member_init(self, i, f, fr, st):
        this = self.deref(st, fr.this)
        e = i.get('e')
        if 'n' in i:
            dst = this.sub(i['n'], f['cls'], i.get('ft', ''))
            if e is None:
                return [st]
            if i.get('ft', '').endswith('&'):
                r = []
                for s, v in self.ev(e, st, fr):
                    self.rawset(s, dst, ('refto', v.loc) if isinstance(v, L) else v)
                    r.append(s)
                return r
            out = []
            for s in self.construct(e, dst, st, fr):
                t = path_get(s.store.get(dst.root, ('init', dst.root)), dst.path)
                self.note(s, dst)
                self.emit(s, 'acc', e, fr, rw='i', loc=dst.loc, val=t, cls=f['cls'], ty=i.get('ft', ''))
                out.append(s)
            return out
        if e is None:
            return [st]
        if e['k'] == 'ctor' and e['f']['id'] in self.p.funcs:
            r = []
            g = self.p.funcs[e['f']['id']]
            if not self.pol.follow(g):
                return [st]
            for s, vs in self.evs(e['a'], st, fr):
                if self.is_copy(e):
                    r.append(s)
                    continue
                for s2, _ in self.inline(g, fr.this, vs, s, fr, e):
                    r.append(s2)
            return r
        return [s for s, _ in self.ev(e, st, fr)]

    # ------------------------------------------------- Datagram as a dictionary
    def datagram_call(self, n, f, name, recv, vs, st, fr):
        rd = lambda v: self.read(st, v, n, fr)
        if name == 'operator[]':
            k = rd(vs[0])
            if not isinstance(recv, L):
                return [(st, sel_at(recv, k))]
            self.emit(st, 'dgindex', n, fr, key=k, recv=rd(recv))
            return [(st, recv.sub(('at', k)))]
        if name == 'operator=':
            t = rd(vs[0])
            self.write(st, recv, t, n, fr, via='=')
            return [(st, recv)]
        if name == 'Get':
            t = rd(recv)
            ty = (f.get('ta') or [f.get('rt')])[0]
            if vs:
                args = tuple(rd(v) for v in vs)
                e = self.emit(st, 'call', n, fr, q='lp::messages::Datagram::Get', id=f['id'], recv=t, args=args, cls='lp::messages::Datagram', ta=f.get('ta'), rloc=recv.loc if isinstance(recv, L) else None, alocs=())
                return [(st, ('dget', ty, t, args))]
            e = self.emit(st, 'call', n, fr, q='lp::messages::Datagram::Get', id=f['id'], recv=t, args=(), cls='lp::messages::Datagram', ta=f.get('ta'), conv=True, rloc=None, alocs=())
            self.opaque_throws(st, e, fr, n)
            return [(st, t)]
        if f.get('conv'):
            t = rd(recv)
            e = self.emit(st, 'call', n, fr, q='lp::messages::Datagram::Get', id=f['id'], recv=t, args=(), cls='lp::messages::Datagram', ta=[f.get('rt')], conv=True, rloc=None, alocs=())
            self.opaque_throws(st, e, fr, n)
            return [(st, t)]
        if name == 'KeyExists':
            a = self.in_atom(rd(vs[0]), rd(recv))
            return [(s, C(b)) for s, b in self.fork(st, a)]
        if name == 'GetCount':
            t = rd(recv)
            e = self.emit(st, 'call', n, fr, q='lp::messages::Datagram::GetCount', id=f['id'], recv=t, args=(), cls='lp::messages::Datagram', rloc=None, alocs=())
            self.opaque_throws(st, e, fr, n)
            return [(st, size(t))]
        if name == 'IsEmpty':
            return [(s, C(b)) for s, b in self.fork(st, self.empty_atom(rd(recv)))]
        if name == 'Clear':
            self.write(st, recv, EMPTY, n, fr, via='clear')
            return [(st, ('c', None))]
        return None

    # ------------------------------------------------------ library vocabulary
    def between(self, a, b):
        """the text between two positions of the same string"""
        if b[3] == ('end',):
            return self.substr(a[2], a[3], None)
        return self.substr(a[2], a[3], sub(b[3], a[3]))

    def in_text(self, st, s, i, n, fr):
        """the states that go on after position i of the text s was asked for; the others fail"""
        if not self.pol.strict or i in (C(0), size(s)) or i[0] == 'lin' and i[1] == 1 and [(t[0], k) for t, k in to_lin(i)[1].items()] == [('sfind', 1)]:
            return [st]
        if i[0] == 'sfind' and i[2] == s:
            a, p = self.eq_atom(i, NPOS)
        else:
            a, p = self.lt_atom(size(s), i)
        r = []
        for x, b in self.fork(st, a):
            if b == p:
                self.out_of_range(x, n, fr)
            else:
                r.append(x)
        return r

    def has_at(self, st, c, k, cls, n, fr):
        """the states that go on after 'at': the others fail"""
        if not self.pol.strict or 'array' in cls:
            return [st]
        a, p = (self.in_atom(k, c), True) if 'map' in cls else self.lt_atom(k, size(c))
        r = []
        for x, b in self.fork(st, a):
            if b == p:
                r.append(x)
            else:
                self.out_of_range(x, n, fr)
        return r

    def out_of_range(self, st, n, fr):
        self.collect.append((st, Exc('std::out_of_range', ['std::out_of_range', 'std::logic_error', 'std::exception'], (), None, (fr.f['file'], n['l'], fr.f['q']))))

    def substr(self, s, a, b):
        if b is None or b == NPOS:
            if is_const(a) and is_const(s) and isinstance(s[1], str):
                return C(s[1][a[1]:])
            return ('substr', s, a, ('npos',))
        if is_const(s) and is_const(a) and is_const(b) and isinstance(s[1], str):
            return C(s[1][a[1]:a[1] + b[1]])
        return ('substr', s, a, b)

    def mk_iter(self, recv, t, pos, ty):
        return ('it', recv.loc if isinstance(recv, L) else None, t, pos, is_map(ty))

    def setv(self, st, recv, t, n, fr, via):
        if isinstance(recv, L):
            self.write(st, recv, t, n, fr, via=via)

    def std_call(self, n, f, name, cls, recv, vs, st, fr):
        q = f['q']
        rd = lambda v: self.read(st, v, n, fr)
        void = [(st, ('c', None))]
        nargs = [i for i, a in enumerate(n['a']) if not a.get('dflt')] if len(n['a']) == len(vs) else list(range(len(vs)))
        op = f.get('op')
        bcls = cls

        # --- value-transparent helpers
        if name in PASS and q.startswith('std::') and len(vs) == 1:
            v = vs[0]
            if name == 'move' and isinstance(v, L):
                v = L(v.root, v.path, v.cls, v.ty, True)
            if name == 'forward' and isinstance(v, L) and n.get('f', {}).get('rt', '').endswith('&&') and 'function' not in v.ty and False:
                v = L(v.root, v.path, v.cls, v.ty, True)
            if name == 'addressof':
                return [(st, ('addr', v.loc) if isinstance(v, L) else ('addr', (('tmp', v), ())))]
            return [(st, v)]
        if name in ('make_shared', 'make_unique') and 'mk' in n:
            root = ('obj', (n['mk'], n['l'], st.uid()))
            self.emit(st, 'new', n, fr, at=n['mk'], n=None, root=root, shared=True)
            k = n.get('mkctor')
            if k and k['id'] in self.p.funcs and not (k.get('copy') or k.get('move')) and self.pol.follow(self.p.funcs[k['id']]) \
                    and not (self.pol.model_datagram and k.get('cls') == 'lp::messages::Datagram'):
                st.store[root] = ('zero', n.get('mkcls') or n['mk'])
                return [(s, ('addr', (root, ()))) for s, _ in self.inline(self.p.funcs[k['id']], ('addr', (root, ())), vs, st, fr, n)]
            args = tuple(rd(v) for v in vs)
            st.store[root] = args[0] if len(args) == 1 and (not k or k.get('copy') or k.get('move')) else ('new', n['mk'], args)
            return [(st, ('addr', (root, ())))]
        if name in ('static_pointer_cast', 'const_pointer_cast'):
            t = rd(vs[0])
            ty = (f.get('ta') or ['?'])[0]
            frm = (f.get('ta') or ['?', '?'])[-1]
            if name == 'static_pointer_cast' and ty != frm and (frm in self.p.bases(ty) or frm in self.p.bases(ty.split('<')[0])):
                return [(st, self.dyncast(ty, t))]   # a cast down: right only where the type was checked
            return [(st, t)]
        if name == 'dynamic_pointer_cast':
            t = rd(vs[0])
            ty = (f.get('ta') or ['?'])[0]
            return [(st, self.dyncast(ty, t))]
        if name in ('swap',) and q.startswith('std::') and len(vs) == 2:
            a, b = rd(vs[0]), rd(vs[1])
            if a[0] == 'lk' or b[0] == 'lk':
                self.rawset(st, vs[0], b)
                self.rawset(st, vs[1], a)
                return void
            self.setv(st, vs[0], b, n, fr, 'swap')
            self.setv(st, vs[1], a, n, fr, 'swap')
            return void
        if name == 'exchange' and q == 'std::exchange':
            a, b = rd(vs[0]), rd(vs[1])
            self.setv(st, vs[0], b, n, fr, '=')
            return [(st, a)]

        # --- locks and condition variables
        if cls in LOCKS:
            t = self.read(st, recv)
            if name in ('lock', 'unlock') and t[0] == 'lk':
                for m in t[1]:
                    (self.lock if name == 'lock' else self.unlock)(st, m, n, fr)
                self.rawset(st, recv, ('lk', t[1], name == 'lock'))
                return void
            if name == 'try_lock' and t[0] == 'lk':
                s2 = st.copy()
                for m in t[1]:
                    self.lock(st, m, n, fr)
                self.rawset(st, recv, ('lk', t[1], True))
                return [(st, TRUE), (s2, FALSE)]
            if name in ('owns_lock', 'operator bool'):
                return [(st, C(bool(t[2])) if t[0] == 'lk' else ('unk', 'owns'))]
            if name == 'release':
                self.rawset(st, recv, ('lk', (), False))
                return void
        if cls in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::shared_timed_mutex') and isinstance(recv, L):
            if name in ('lock', 'lock_shared'):
                self.lock(st, recv.loc, n, fr)
                return void
            if name in ('unlock', 'unlock_shared'):
                self.unlock(st, recv.loc, n, fr)
                return void
            if name.startswith('try_lock'):
                s2 = st.copy()
                self.lock(st, recv.loc, n, fr)
                return [(st, TRUE), (s2, FALSE)]
        if q in ('std::lock',):
            for v in vs:
                if isinstance(v, L):
                    t = self.read(st, v)
                    if t[0] == 'lk':
                        for m in t[1]:
                            self.lock(st, m, n, fr)
                        self.rawset(st, v, ('lk', t[1], True))
                    else:
                        self.lock(st, v.loc, n, fr)
            return void
        if cls in ('std::condition_variable', 'std::condition_variable_any', 'std::_V2::condition_variable_any') :
            if name in ('notify_one', 'notify_all'):
                self.emit(st, 'notify', n, fr, cv=recv.loc if isinstance(recv, L) else None, all=name == 'notify_all')
                return void
            if name in ('wait', 'wait_for', 'wait_until'):
                return self.cv_wait(n, name, recv, vs, st, fr)

        # --- atomics
        if cls in ('std::atomic', 'std::__atomic_base', 'std::atomic_flag', 'std::atomic_bool'):
            l = recv
            if name in ('load', 'test') or f.get('conv'):
                if isinstance(l, L):
                    self.emit(st, 'acc', n, fr, rw='r', loc=l.loc, cls=l.cls, ty='std::atomic', atomic=True)
                    if self.pol.quiet_atomics:
                        return [(st, self.read(st, l, n, fr))]
                    return [(st, ('ard', st.uid(), l.loc))]
                return [(st, l)]
            if name in ('store', 'operator='):
                t = rd(vs[0])
                if isinstance(l, L):
                    self.rawset(st, l, t)
                    self.emit(st, 'acc', n, fr, rw='w', loc=l.loc, val=t, cls=l.cls, ty='std::atomic', atomic=True)
                return [(st, t)]
            if isinstance(l, L):
                t = rd(vs[0]) if vs else ('c', None)
                self.emit(st, 'acc', n, fr, rw='w', loc=l.loc, val=('rmw', name, t), cls=l.cls, ty='std::atomic', atomic=True)
                if name == 'exchange' or name == 'test_and_set':
                    self.rawset(st, l, t)
            return [(st, ('ard', st.uid(), l.loc if isinstance(l, L) else l))]

        # --- smart pointers
        if cls in PTRS or cls == 'std::enable_shared_from_this' or cls.startswith('std::__shared_ptr') or cls == 'std::__uniq_ptr_impl':
            if name in ('shared_from_this',):
                return [(st, ('addr', recv.loc) if isinstance(recv, L) else recv)]
            if name == 'weak_from_this':
                return [(st, ('weak', ('addr', recv.loc)))]
            t = rd(recv) if recv is not None else NULL
            p = t[1] if t[0] == 'own' else t
            if name == 'get':
                return [(st, p)]
            if name in ('operator*', 'operator->'):
                if p[0] != 'addr':
                    self.emit(st, 'deref', n, fr, ptr=p)
                if name == 'operator*':
                    return [(st, self.deref(st, p))]
                return [(st, p)]
            if name == 'operator[]':
                return [(st, self.deref(st, p).sub(('at', rd(vs[0]))))]
            if f.get('conv') or name == 'operator bool':
                a, pol = self.null_atom(p)
                return [(s, C(b != pol)) for s, b in self.fork(st, a)]
            if name == 'lock':
                if p == NULL:
                    return [(st, NULL)]
                return [(st, ('lockw', p[1]) if p[0] == 'weak' else ('lockw', p))]
            if name == 'expired':
                t2 = ('lockw', p[1] if p[0] == 'weak' else p)
                a, pol = self.null_atom(t2)
                return [(s, C(b == pol)) for s, b in self.fork(st, a)]
            if name == 'reset':
                nv = rd(vs[0]) if nargs else NULL
                if t[0] == 'own':
                    self.release_own(st, t, n, fr)
                    nv = NULL if nv == NULL else ('own', nv, t[2])
                self.setv(st, recv, nv, n, fr, 'reset')
                return void
            if name == 'release':
                self.setv(st, recv, NULL, n, fr, 'release')
                return [(st, p)]
            if name == 'swap':
                a, b = t, rd(vs[0])
                self.setv(st, recv, b, n, fr, 'swap')
                self.setv(st, vs[0], a, n, fr, 'swap')
                return void
            if name == 'operator=':
                nv = rd(vs[0])
                if cls in ('std::weak_ptr', 'std::__weak_ptr') and nv != NULL and nv[0] != 'weak':
                    nv = ('weak', nv)
                self.setv(st, recv, nv, n, fr, '=')
                return [(st, recv)]
            if name == 'use_count' or name == 'unique':
                return [(st, ('unk', name, st.uid()))]

        # --- std::function
        if cls == 'std::function':
            t = rd(recv)
            if name == 'operator()':
                self.emit(st, 'invoke', n, fr, fv=t, rloc=recv.loc if isinstance(recv, L) else None, cls=recv.cls if isinstance(recv, L) else None)
                return self.invoke(t, vs, n, st, fr)
            if f.get('conv') or name == 'operator bool':
                a, pol = self.null_atom(t)
                return [(s, C(b != pol)) for s, b in self.fork(st, a)]
            if name == 'operator=':
                self.setv(st, recv, rd(vs[0]), n, fr, '=')
                return [(st, recv)]
            if name == 'swap':
                b = rd(vs[0])
                self.setv(st, recv, b, n, fr, 'swap')
                self.setv(st, vs[0], t, n, fr, 'swap')
                return void

        if q == 'std::bind':
            ts = [rd(v) for v in vs]
            full = tuple(('ph', int(t[1].split('_')[-1])) if t[0] == 'fldph' else t for t in ts[1:])
            return [(st, ('bind', ts[0], full))]

        # --- comparisons and operators on values
        if op in ('==', '!=', '<', '>', '<=', '>=') and (n.get('opc')):
            both = ([recv] if 'o' in n else []) + list(vs)
            if len(both) == 2:
                a, b = rd(both[0]), rd(both[1])
                if a[0] == 'own':
                    a = a[1]
                if b[0] == 'own':
                    b = b[1]
                return [(s, C(x)) for s, x in self.compare(st, op, a, b)]
        if op in ('+', '+=') and n.get('opc'):
            both = ([recv] if 'o' in n else []) + list(vs)
            if len(both) == 2:
                a, b = rd(both[0]), rd(both[1])
                if a[0] == 'it' or is_int(b) and 'iterator' in cls:
                    t = self.arith('+', a, b)
                elif 'basic_string' in q or 'basic_string' in f.get('rt', '') or 'basic_string' in cls:
                    t = cat(a, b)
                else:
                    t = self.arith('+', a, b)
                if op == '+=':
                    self.setv(st, both[0], t, n, fr, '+=')
                    return [(st, both[0])]
                return [(st, t)]
        if op == '-' and n.get('opc'):
            both = ([recv] if 'o' in n else []) + list(vs)
            if len(both) == 2:
                return [(st, self.arith('-', rd(both[0]), rd(both[1])))]
        if op in ('++', '--') and n.get('opc'):
            l = recv if 'o' in n else vs[0]
            t = rd(l)
            nt = self.arith('+' if op == '++' else '-', t, C(1))
            self.setv(st, l, nt, n, fr, op)
            post = len(vs) > (0 if 'o' in n else 1)
            return [(st, t if post else l)]
        if op in ('*', '->') and n.get('opc') and (not vs or 'o' not in n):
            t = rd(recv if 'o' in n else vs[0])
            if t[0] == 'it' or True:
                if op == '->':
                    if t[0] == 'it':
                        l = self.deref(st, t)
                        return [(st, ('addr', l.loc))]
                    return [(st, t)]
                return [(st, self.deref(st, t))]
        if op in ('<<', '>>') and n.get('opc'):
            both = ([recv] if 'o' in n else []) + list(vs)
            a, b = both[0], both[1]
            if isinstance(a, L):
                tb = rd(b)
                self.emit(st, 'stream', n, fr, op=op, loc=a.loc, val=tb, vloc=b.loc if isinstance(b, L) else None, vt=n['a'][-1].get('t') if n['a'] else None)
                if op == '<<' and a.root[0] == 'v':
                    m = base_name(tb[2].split('<')[0]) if tb[0] == 'func' else None
                    if m == 'endl':
                        tb = C('\n')
                    if m != 'flush':
                        self.rawset(st, a, ('app', self.read(st, a), tb))
                return [(st, a)]
        if op == '=' and n.get('opc') and recv is not None and not q.startswith('lp::'):
            t = rd(vs[0])
            if t[0] == 'zero' and cls in ('std::list', 'std::deque', 'std::vector', 'std::map', 'std::set'):
                t = EMPTY
            self.setv(st, recv, t, n, fr, '=')
            return [(st, recv)]

        # --- strings and containers
        r = self.container(n, f, name, cls, recv, vs, st, fr, nargs)
        if r is not None:
            return r
        if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::empty') and len(vs) == 1:
            return self.container(n, f, name, 'std::vector', vs[0], [], st, fr, [])
        if q in ('std::advance',):
            t, k = rd(vs[0]), rd(vs[1])
            self.setv(st, vs[0], self.arith('+', t, k), n, fr, 'advance')
            return void
        if q in ('std::next', 'std::prev'):
            t = rd(vs[0])
            k = rd(vs[1]) if len(vs) > 1 else C(1)
            return [(st, self.arith('+' if name == 'next' else '-', t, k))]
        if q == 'std::distance':
            a, b = rd(vs[0]), rd(vs[1])
            if a[0] == 'it' and b[0] == 'it':
                pa = size(a[2]) if a[3] == ('end',) else a[3]
                pb = size(b[2]) if b[3] == ('end',) else b[3]
                return [(st, sub(pb, pa))]
        if q in ('std::find', 'std::count') and len(vs) == 3:
            a, b, v = rd(vs[0]), rd(vs[1]), rd(vs[2])
            if a[0] == 'it' and b[0] == 'it' and a[3] == C(0) and b[3] == ('end',) and a[2] == b[2]:
                if name == 'count':
                    return [(s, C(1 if x else 0)) for s, x in self.fork(st, self.in_atom(v, a[2]))]
                return [(st, a[:3] + (('posv', v),) + a[4:])]
        if q in ('std::for_each', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::count_if', 'std::find_if_not') and len(vs) == 3:
            return self.algorithm(name, n, vs, st, fr)
        if q == 'std::equal':
            ts = [rd(v) for v in vs]
            its = [t for t in ts if t[0] == 'it']
            pred = ts[-1] if ts and ts[-1][0] in ('lambda', 'func') else None
            self.emit(st, 'equal', n, fr, its=tuple(its), pred=pred, n=len(its))
            if len(its) >= 3:
                if pred is not None and pred[0] == 'lambda' and pred[1] in self.p.funcs:
                    a, b = ('elemA', its[0][2]), ('elemB', its[2][2])
                    s2 = st.copy()
                    save, self.collect = self.collect, []
                    s2.ev = None
                    outs = self.invoke(pred, [a, b], n, s2, fr)
                    self.collect = save
                    self.emit(st, 'equalpred', n, fr, outs=tuple((tuple(o.facts.items()), tuple(o.events()), v) for o, v in outs))
                at = ('seqeq', its[0][2], its[2][2])
                if len(its) == 3 and pred is None and its[0][3] == C(0) and its[1][3] == ('end',) and its[2][3] == C(0) and all('basic_string' in g for g in f.get('pt') or ['']) and st.facts.get(('lt0', sub(size(its[2][2]), size(its[0][2])))) is False:
                    at = ('prefix', its[0][2], its[2][2])
                return [(s, C(x)) for s, x in self.fork(st, at)]
        if q in ('std::min', 'std::max') and len(vs) == 2:
            a, b = rd(vs[0]), rd(vs[1])
            if a == b:
                return [(st, a)]
            x, y = sorted((a, b), key=repr)
            return [(st, (name, x, y))]
        if q == 'std::to_string' or q.startswith('std::to_string'):
            return [(st, ('tostr', rd(vs[0])))]
        if q in ('std::remove',) and len(vs) == 3:
            a, b, v = rd(vs[0]), rd(vs[1]), rd(vs[2])
            if a[0] == 'it':
                return [(st, a[:3] + (('removed', v),) + a[4:])]
        if q in ('std::remove_if',) and len(vs) == 3:
            a, b, v = rd(vs[0]), rd(vs[1]), rd(vs[2])
            if a[0] == 'it':
                return [(st, a[:3] + (('removedif', v),) + a[4:])]
        if q in ('std::accumulate', 'std::transform', 'std::copy'):
            pass
        if q == 'std::make_pair':
            return [(st, ('rec', ('zero', 'pair'), (('first', rd(vs[0])), ('second', rd(vs[1])))))]
        if q == 'std::get' and len(vs) == 1 and isinstance(vs[0], L):
            pass
        if cls == 'std::thread' or cls == 'std::jthread':
            self.emit(st, 'call', n, fr, q='std::thread::' + name, id=f['id'], recv=self.read(st, recv), rloc=recv.loc if isinstance(recv, L) else None, args=tuple(rd(v) for v in vs), alocs=(), cls=cls)
            if name == 'joinable':
                t = self.read(st, recv)
                return [(s, C(b)) for s, b in self.fork(st, ('joinable', t))]
            if name in ('join', 'detach'):
                self.setv(st, recv, ('zero', 'std::thread'), n, fr, name)
                return void
            if name == 'swap':
                a, b = rd(recv), rd(vs[0])
                self.setv(st, recv, b, n, fr, 'swap')
                self.setv(st, vs[0], a, n, fr, 'swap')
                return void
        if name in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'snprintf', 'sprintf', 'readlink', 'getcwd', 'fgets', 'read', 'recv'):
            pass
        # --- opaque
        args = tuple(rd(v) for v in vs)
        t = self.read(st, recv) if recv is not None else None
        e = self.emit(st, 'call', n, fr, q=q, id=f['id'], recv=t, rloc=recv.loc if isinstance(recv, L) else None, args=args,
                      alocs=tuple(v.loc if isinstance(v, L) else None for v in vs), cls=cls, nodes=n, rcls=recv.cls if isinstance(recv, L) else None)
        self.opaque_throws(st, e, fr, n)
        pts = f.get('pt', [])
        if q in SHOWS:
            e.d['at'] = tuple(self.read(st, L(a[1][0], a[1][1])) if a[0] == 'addr' else None for a in args)
        # memory handed out by pointer or mutable reference may change
        e.d['outs'] = outs = {}
        for i, (v, a) in enumerate(zip(vs, args)):
            pt = (pts[i] if i < len(pts) else '').replace('__restrict', '').rstrip()
            if pt.endswith('&') and not pt.startswith('const ') and isinstance(v, L) and not pt.endswith('&&'):
                outs[i] = ('out', q, st.uid(), a)
                self.rawset(st, v, outs[i])
                if self.shared(v.root):
                    self.emit(st, 'acc', n, fr, rw='w', loc=v.loc, val=('out', q), cls=v.cls, ty=v.ty, via=q)
            if isinstance(v, L) and pt.endswith('*') and not pt.startswith('const ') and (v.ty or '').endswith(']'):
                outs[i] = ('out', q, st.uid(), a)
                self.rawset(st, v, outs[i])
            if a[0] == 'addr' and (pt.endswith('*') and not pt.startswith('const ')):
                l = L(a[1][0], a[1][1])
                base = l
                if base.path and isinstance(base.path[-1], tuple) and base.path[-1] == ('at', C(0)):
                    base = L(base.root, base.path[:-1])
                outs[i] = ('out', q, st.uid(), self.read(st, base))
                self.rawset(st, base, outs[i])
        if recv is not None and isinstance(recv, L) and not f.get('const') and not f.get('static') and 'cls' in f:
            if recv.root[0] in ('v', 'tmp'):
                self.rawset(st, recv, ('mut', name, t, args, st.uid()))
        rt = f.get('rt', '')
        if rt == 'void':
            return void
        pure = f.get('const') or 'cls' not in f and q in PURE
        res = ('res', q, ((t,) if t is not None else ()) + args, 0 if pure else st.uid())
        e.d['res'] = res
        if rt.endswith('&') and not rt.endswith('&&'):
            return [(st, L(('deref', res), ()))]
        return [(st, res)]

    def release_own(self, st, t, n, fr):
        if t[0] == 'own' and t[1] != NULL:
            p, d = t[1], t[2]
            if d == ('default',):
                self.emit(st, 'delete', n, fr, ptr=p, arr=False, auto=True)
            elif d[0] == 'func':
                self.emit(st, 'call', n, fr, q=d[2], id=d[1], recv=None, rloc=None, args=(p,), alocs=(None,), cls='', auto=True)
            elif d[0] == 'lambda':
                self.invoke(d, [p], n, st, fr)
            else:
                self.emit(st, 'fcall', n, fr, fv=d, args=(p,), auto=True)

    def container(self, n, f, name, cls, recv, vs, st, fr, nargs):
        """std containers and strings; None if not one of them"""
        q = f['q']
        if not (cls.startswith('std::') or cls.startswith('__gnu')) or recv is None:
            return None
        rd = lambda v: self.read(st, v, n, fr)
        void = [(st, ('c', None))]
        isstr = 'basic_string' in cls
        cty = recv.ty if isinstance(recv, L) else ''
        ismap = cls in ('std::map', 'std::unordered_map', 'std::multimap')
        tyhint = 'std::map<' if ismap else (cty if not cls.startswith('std::map') else 'std::map<')
        t = None

        def cur():
            return self.read(st, recv, n, fr)
        if name in ('size', 'length') and not vs:
            return [(st, size(cur()))]
        if name == 'empty' and not vs:
            return [(s, C(b)) for s, b in self.fork(st, self.empty_atom(cur()))]
        if name in ('begin', 'cbegin'):
            return [(st, ('it', recv.loc if isinstance(recv, L) else None, cur(), C(0), ismap or is_map(cty)))]
        if name in ('end', 'cend'):
            return [(st, ('it', recv.loc if isinstance(recv, L) else None, cur(), ('end',), ismap or is_map(cty)))]
        if name in ('rbegin', 'crbegin', 'rend', 'crend'):
            return [(st, ('it', None, ('reversed', cur()), C(0) if 'begin' in name else ('end',), ismap or is_map(cty)))]
        if name in ('c_str', 'data') and not vs:
            return [(st, cur())]
        if name == 'find' and not isstr and len(nargs) == 1:
            c = cur()
            return [(st, ('it', recv.loc if isinstance(recv, L) else None, c, ('pos', rd(vs[0])), ismap))]
        if name in ('count', 'contains') and len(nargs) == 1 and not isstr:
            at = self.in_atom(rd(vs[0]), cur())
            return [(s, (C(b) if name == 'contains' else C(1 if b else 0))) for s, b in self.fork(st, at)]
        if name in ('at', 'operator[]') and len(vs) == 1:
            k = rd(vs[0])
            r = []
            for x in self.has_at(st, cur(), k, cls, n, fr) if name == 'at' else [st]:
                if not isinstance(recv, L):
                    r.append((x, sel_at(recv, k)))
                    continue
                self.note(x, recv)
                if self.pol.reads and self.shared(recv.root):
                    self.emit(x, 'acc', n, fr, rw='r' if name == 'at' or cls not in ('std::map', 'std::unordered_map') else 'w', loc=recv.loc, cls=recv.cls, ty=recv.ty, via=name)
                self.emit(x, 'index', n, fr, loc=recv.loc, i=k, cont=path_get(x.store.get(recv.root, ('init', recv.root)), recv.path), cls=cls, name=name, ccls=recv.cls)
                r.append((x, recv.sub(('at', k), None, n.get('t', ''))))
            return r
        if name == 'front' and not vs:
            c = cur()
            if isinstance(recv, L):
                return [(st, recv.sub(('front',)))]
            return [(st, seq_front(c))]
        if name == 'back' and not vs:
            c = cur()
            return [(st, c[2] if c[0] == 'app' else ('back', c))]
        if isstr:
            if name == 'substr':
                v = self.substr(cur(), rd(vs[0]), rd(vs[1]) if 1 in nargs else None)
                return [(x, v) for x in self.in_text(st, cur(), rd(vs[0]), n, fr)]
            if name == 'compare':
                a = [rd(v) for v in vs]
                c = cur()
                if len(a) == 1:
                    return [(st, ('cmp', c, a[0]))]
                if len(a) == 3 and a[0] == C(0) and a[1] == size(a[2]):
                    return [(st, ('cmp', ('substr', c, a[0], a[1]), a[2]))]
                return [(st, ('cmp', self.substr(c, a[0], a[1]), a[2] if len(a) > 2 else NULL))]
            if name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of'):
                a = tuple(rd(vs[i]) for i in nargs)
                if name == 'find_first_of' and is_const(a[0]) and (isinstance(a[0][1], int) or len(a[0][1]) == 1):
                    name = 'find'
                if name == 'find_last_of' and is_const(a[0]) and (isinstance(a[0][1], int) or len(a[0][1]) == 1):
                    name = 'rfind'
                if is_const(a[0]) and isinstance(a[0][1], str) and len(a[0][1]) == 1:
                    a = (C(ord(a[0][1])),) + a[1:]
                if is_const(cur()) and isinstance(cur()[1], str) and len(a) == 1 and is_const(a[0]) and name in ('find', 'rfind'):
                    x = chr(a[0][1]) if isinstance(a[0][1], int) else a[0][1]
                    i = getattr(cur()[1], name)(x)
                    return [(st, C(i) if i >= 0 else NPOS)]
                return [(st, ('sfind', name, cur(), a))]
            if name in ('append', 'push_back', 'operator+='):
                if len(nargs) == 1:
                    x = rd(vs[0])
                    if name == 'push_back' and is_const(x) and isinstance(x[1], int):
                        x = C(chr(x[1]))
                    if not isinstance(recv, L):
                        return [(st, cat(cur(), x))]
                    self.setv(st, recv, cat(cur(), x), n, fr, name)
                    return [(st, recv)]
                if len(nargs) == 2 and bare(f.get('pt', [''])[0]) in INTY and bare(f.get('pt', ['', ''])[1]) == 'char':
                    x = cat(cur(), ('app1', 'string', (rd(vs[0]), rd(vs[1]))))
                    if not isinstance(recv, L):
                        return [(st, x)]
                    self.setv(st, recv, x, n, fr, name)
                    return [(st, recv)]
            if name == 'clear':
                self.setv(st, recv, C(''), n, fr, name)
                return void
            if name in ('assign', 'operator=') and len(nargs) == 1:
                self.setv(st, recv, rd(vs[0]), n, fr, '=')
                return [(st, recv)]
            if name == 'assign' and len(nargs) in (2, 3):
                x = [rd(vs[i]) for i in nargs]
                ty = f.get('pt', [''])[0]
                if 'basic_string' in ty and x[0][0] != 'it':
                    v = self.substr(x[0], x[1], x[2] if len(x) > 2 else None)
                elif len(x) == 2 and x[0][0] == 'it' and x[1][0] == 'it' and x[0][2] == x[1][2]:
                    v = self.between(x[0], x[1])
                elif len(x) == 2:
                    v = ('app1', 'string', tuple(x))
                else:
                    return None
                self.setv(st, recv, v, n, fr, '=')
                return [(st, recv)]
            if name == 'resize' and len(nargs) == 1:
                k = rd(vs[0])
                if recv_shrinks(st, cur(), k):
                    self.setv(st, recv, self.substr(cur(), C(0), k), n, fr, '=')
                    return void
            if name == 'insert' and len(nargs) == 2 and rd(vs[0]) == C(0):
                x = cat(rd(vs[1]), cur())
                if not isinstance(recv, L):
                    return [(st, x)]
                self.setv(st, recv, x, n, fr, name)
                return [(st, recv)]
            if name == 'insert' and len(nargs) == 3 and rd(vs[0]) == C(0) and rd(vs[1]) == C(1) and is_const(rd(vs[2])):
                ch = rd(vs[2])
                x = cat(C(chr(ch[1])) if type(ch[1]) is int else ch, cur())
                self.setv(st, recv, x, n, fr, name)
                return [(st, recv)]
            if name == 'erase' and len(nargs) in (1, 2):
                a = [rd(vs[i]) for i in nargs]
                if a[0] == C(0) and len(a) == 2:
                    self.setv(st, recv, self.substr(cur(), a[1], None), n, fr, name)
                    return [(st, recv)]
                if len(a) == 1 and a[0][0] != 'it':
                    self.setv(st, recv, self.substr(cur(), C(0), a[0]), n, fr, name)
                    return [(st, recv)]
            if name == 'swap':
                a, b = cur(), rd(vs[0])
                self.setv(st, recv, b, n, fr, 'swap')
                self.setv(st, vs[0], a, n, fr, 'swap')
                return void
            return None
        seq = cls in ('std::list', 'std::deque', 'std::vector', 'std::queue', 'std::map', 'std::set', 'std::unordered_map', 'std::unordered_set', 'std::multimap', 'std::stack')
        if not seq and not cls.startswith('std::_'):
            return None
        if name in ('push_back', 'push', 'emplace_back', 'emplace') and cls in ('std::list', 'std::deque', 'std::vector', 'std::queue'):
            v = rd(vs[0]) if len(vs) == 1 else ('new', 'elem', tuple(rd(x) for x in vs))
            self.setv(st, recv, ('app', cur(), v), n, fr, 'push_back')
            return void
        if name in ('push_front', 'emplace_front'):
            v = rd(vs[0]) if len(vs) == 1 else ('new', 'elem', tuple(rd(x) for x in vs))
            self.setv(st, recv, ('pre', cur(), v), n, fr, 'push_front')
            return void
        if name == 'clear':
            self.setv(st, recv, EMPTY, n, fr, 'clear')
            return void
        if name in ('pop_front', 'pop'):
            self.setv(st, recv, ('popf', cur()), n, fr, 'pop_front')
            return void
        if name == 'pop_back':
            self.setv(st, recv, ('popb', cur()), n, fr, 'pop_back')
            return void
        if name == 'remove' and cls == 'std::list':
            self.setv(st, recv, ('rem', cur(), rd(vs[0])), n, fr, 'remove')
            return void
        if name == 'remove_if' and cls == 'std::list':
            self.setv(st, recv, ('remif', cur(), rd(vs[0])), n, fr, 'remove_if')
            return void
        if name == 'erase':
            a = [rd(vs[i]) for i in nargs]
            c = cur()
            if len(a) == 1 and a[0][0] == 'it':
                p = a[0][3]
                if p[0] == 'pos':
                    nv = ('del', c, p[1])
                elif p[0] == 'posv':
                    nv = ('rem', c, p[1])
                elif a[0][4]:
                    nv = ('del', c, key_of(a[0][2], p))
                else:
                    nv = ('delat', c, p)
                self.setv(st, recv, nv, n, fr, 'erase')
                return [(st, ('it', recv.loc if isinstance(recv, L) else None, nv, p, a[0][4]))]
            if len(a) == 1:
                r = []
                for s, b in self.fork(st, self.in_atom(a[0], c)):
                    if b:
                        self.setv(s, recv, ('del', c, a[0]), n, fr, 'erase')
                    r.append((s, C(1 if b else 0)))
                return r
            if len(a) == 2 and a[0][0] == 'it':
                if a[0][3][0] == 'removed':
                    self.setv(st, recv, ('rem', c, a[0][3][1]), n, fr, 'erase')
                    return [(st, ('unk', 'it', st.uid()))]
                if a[0][3][0] == 'removedif':
                    self.setv(st, recv, ('remif', c, a[0][3][1]), n, fr, 'erase')
                    return [(st, ('unk', 'it', st.uid()))]
                if a[0][3] == C(0) and a[1][3] == ('end',):
                    self.setv(st, recv, EMPTY, n, fr, 'clear')
                    return [(st, ('unk', 'it', st.uid()))]
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign') and cls in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
            a = [rd(vs[i]) for i in nargs]
            c = cur()
            if 'map' in cls and len(a) == 1 and a[0][0] == 'rec':
                k, v = select(a[0], 'first'), select(a[0], 'second')
            elif 'map' in cls and len(a) == 2:
                k, v = a
            elif 'set' in cls and len(a) == 1:
                k = v = a[0]
            else:
                k = None
            if k is not None:
                if name == 'insert_or_assign':
                    self.setv(st, recv, with_at(c, k, v), n, fr, 'put')
                    return [(st, ('unk', 'ins', st.uid()))]
                r = []
                for s, b in self.fork(st, self.in_atom(k, c)):
                    if not b:
                        self.setv(s, recv, with_at(c, k, v), n, fr, 'put')
                    c2 = path_get(s.store.get(recv.root, ('init', recv.root)), recv.path) if isinstance(recv, L) else c
                    it = ('it', recv.loc if isinstance(recv, L) else None, c2, ('pos', k), 'map' in cls)
                    r.append((s, ('rec', ('zero', 'pair'), (('first', it), ('second', C(not b))))))
                return r
        if name == 'insert' and cls in ('std::list', 'std::vector', 'std::deque'):
            a = [rd(vs[i]) for i in nargs]
            c = cur()
            if len(a) == 2 and a[0][0] == 'it' and a[0][3] == ('end',):
                self.setv(st, recv, ('app', c, a[1]), n, fr, 'push_back')
                return [(st, ('unk', 'it', st.uid()))]
            if len(a) == 2 and a[0][0] == 'it' and a[0][3] == C(0):
                self.setv(st, recv, ('pre', c, a[1]), n, fr, 'push_front')
                return [(st, ('unk', 'it', st.uid()))]
            if len(a) == 3 and a[0][0] == 'it' and a[0][3] == ('end',) and a[1][0] == 'it' and a[1][3] == C(0) and a[2][3] == ('end',):
                self.setv(st, recv, ('appall', c, a[1][2]) if c != EMPTY else a[1][2], n, fr, 'append')
                return [(st, ('unk', 'it', st.uid()))]
        if name == 'swap' and len(vs) == 1:
            a, b = cur(), rd(vs[0])
            self.setv(st, recv, b, n, fr, 'swap')
            self.setv(st, vs[0], a, n, fr, 'swap')
            return void
        if name == 'splice' and cls == 'std::list' and len(nargs) == 2:
            a = rd(vs[0])
            b = rd(vs[1])
            c = cur()
            if a[0] == 'it' and a[3] == ('end',):
                self.setv(st, recv, ('appall', c, b) if c != EMPTY else b, n, fr, 'append')
                self.setv(st, vs[1], EMPTY, n, fr, 'clear')
                return void
        if name == 'reserve' or name == 'shrink_to_fit':
            return void
        if name == 'assign' and len(nargs) == 2:
            a = [rd(vs[i]) for i in nargs]
            if a[0][0] == 'it' and a[0][3] == C(0) and a[1][3] == ('end',):
                self.setv(st, recv, a[0][2], n, fr, '=')
                return void
        if seq and isinstance(recv, L) and not f.get('const'):
            args = tuple(rd(v) for v in vs)
            self.setv(st, recv, ('mut', name, cur(), args), n, fr, name)
            return [(st, ('res', q, args, st.uid()))]
        return None

    def cv_wait(self, n, name, recv, vs, st, fr):
        lk = self.read(st, vs[0])
        m = lk[1][0] if lk[0] == 'lk' and lk[1] else None
        timed = name != 'wait'
        pi = 2 if timed else 1
        dur = self.read(st, vs[1], n, fr) if timed else None
        pred = self.read(st, vs[pi], n, fr) if len(vs) > pi else None
        owned = lk[0] == 'lk' and lk[2]
        e = self.emit(st, 'wait', n, fr, cv=recv.loc if isinstance(recv, L) else None, m=m, pred=pred, timed=timed, dur=dur, owned=owned,
                      gvals=tuple((loc, path_get(st.store.get(loc[0], ('init', loc[0])), loc[1])) for loc in st.guard.get(m, ())))
        for loc in st.guard.get(m, ()):
            self.rawset(st, L(loc[0], loc[1]), ('sh', st.uid(), loc))
        if m is not None and m[0][0] == 'obj':
            # an object made here and shared with a callback: its other fields may be set meanwhile
            rec = path_get(st.store.get(m[0], ('init', m[0])), m[1][:-1])
            if rec[0] == 'rec':
                for nme, v in rec[2]:
                    if nme != m[1][-1] and v not in (('zero', 'std::mutex'), ('zero', 'std::condition_variable')):
                        self.rawset(st, L(m[0], m[1][:-1] + (nme,)), ('sh', st.uid(), (m[0], m[1][:-1] + (nme,))))
        if pred is None:
            return [(st, ('unk', 'cvstatus', st.uid()))]
        # locations the predicate looks at may have been changed while waiting
        s0 = st.copy()
        s0.ev = None
        save, sr = self.collect, self.pol.reads
        self.collect, self.pol.reads = [], True
        outs = self.invoke(pred, [], n, s0, fr)
        self.collect, self.pol.reads = save, sr
        locs = {}
        evs = []
        for s, _ in outs:
            for x in s.events():
                evs.append(x)
                if x.k == 'acc' and x.rw == 'r':
                    locs[x.loc] = x
        e.d['predreads'] = tuple((l, x.cls, bool(x.atomic), x.held) for l, x in locs.items())
        e.d['predouts'] = tuple((tuple(s.facts.items()), v) for s, v in outs)
        for l, x in locs.items():
            if not x.atomic:
                self.rawset(st, L(l[0], l[1]), ('sh', st.uid(), l))
        r = []
        for s, v in self.invoke(pred, [], n, st, fr):
            v = self.read(s, v, n, fr)
            at, pol = self.truth_atom(v)
            for s2, b in self.fork(s, at):
                b = b == pol
                if not timed and not b:
                    continue
                r.append((s2, C(b)))
        return r

    # ------------------------------------------------------------- statements
    def ex(self, n, st, fr):
        """[Out] with kind n (next), b (break), c (continue), r (return)"""
        return getattr(self, 's_' + n['k'])(n, st, fr)

    def s_null(self, n, st, fr):
        return [Out(st, 'n')]

    def s_unk(self, n, st, fr):
        return [Out(st, 'n')]

    def s_label(self, n, st, fr):
        return self.ex(n['s'], st, fr)

    def s_expr(self, n, st, fr):
        r = []
        e = n['e']
        for s, v in self.ev(e, st, fr):
            if isinstance(v, tuple) and v[0] == 'lk' and v[2]:
                for m in v[1]:
                    self.unlock(s, m, n, fr)
            r.append(Out(s, 'n'))
        return r

    def s_ret(self, n, st, fr):
        if n.get('e') is None:
            return [Out(st, 'r', None)]
        rref = fr.f.get('rt', '').endswith('&') and not fr.f.get('rt', '').endswith('&&')
        r = []
        e = n['e']
        if e['k'] == 'ctor' and len(e['a']) == 1 and (e.get('f') or {}).get('cls') in self.p.classes and e['a'][0]['k'] == 'ref' and e['a'][0].get('dk') == 'var' and e['a'][0].get('t') == e.get('t') and fr.f.get('rt') == e.get('t'):
            e = e['a'][0]   # a local that is returned: the copy may be left out
        for s, v in self.ev(e, st, fr):
            if not rref and isinstance(v, L):
                v = self.read(s, v, n, fr)
            r.append(Out(s, 'r', v))
        return r

    def s_break(self, n, st, fr):
        return [Out(st, 'b')]

    def s_cont(self, n, st, fr):
        return [Out(st, 'c')]

    def merge(self, outs):
        """drop duplicate states; beyond a threshold also merge states that differ in facts only"""
        if len(outs) < 2:
            return outs
        if len(outs) > 48:
            groups = {}
            for o in outs:
                key = (o.kind, repr(o.val), tuple(sorted(map(repr, o.st.store.items()))), o.st.held, tuple(e.key() for e in o.st.events()))
                groups.setdefault(key, []).append(o)
            res = []
            for g in groups.values():
                o = g[0]
                if len(g) > 1:
                    o.st.facts = common([x.st.facts for x in g])
                res.append(o)
            outs = res
        return self.limit(outs)

    def s_block(self, n, st, fr):
        save = self.collect
        mine = []
        self.collect = mine
        live = [Out(st, 'n')]
        done = []
        declared = []
        for s in n['s']:
            if not live:
                break
            nx = []
            for o in live:
                nx += self.ex(s, o.st, fr)
            if s['k'] == 'decl':
                declared += s['d']
            live = self.merge([o for o in nx if o.kind == 'n'])
            done += [o for o in nx if o.kind != 'n']
        self.collect = save
        outs = done + live
        if declared:
            outs += [Out(s2, o.kind, o.val) for o in list(outs) for s2 in self.scope_exit(declared, o.st, n, fr, o)]
            mine += [(s2, e) for s, e in list(mine) for s2 in self.scope_exit(declared, s, n, fr, None)]
        save += mine
        return outs

    def scope_exit(self, declared, st, n, fr, out):
        """ends the life of local objects in st; further states it may lead to are returned"""
        extra = []
        for at, d in enumerate(reversed(declared)):
            if d.get('static') or d.get('ref'):
                continue
            root = ('v', fr.id, d['id'], d['n'])
            t = st.store.get(root)
            if t is None:
                continue
            nd = {'l': n.get('el', n.get('l'))}
            if t[0] == 'lk':
                if t[2]:
                    for m in reversed(t[1]):
                        self.unlock(st, m, nd, fr)
                st.store[root] = ('lk', (), False)
            elif t[0] == 'own':
                if out is not None and out.val is not None and isinstance(out.val, tuple) and out.val == t:
                    continue
                self.release_own(st, t, nd, fr)
            else:
                cls = d['t'].replace('const ', '')
                dt = self.user_dtor(cls)
                if dt is not None and self.pol.follow(dt) and dt['id'] not in fr.stack and len(fr.stack) < self.pol.depth and cls not in ('lp::messages::RawDatagram',):
                    save, self.collect = self.collect, []
                    r = self.inline(dt, ('addr', (root, ())), [], st, fr, nd)
                    self.collect = save
                    if r:
                        rest = list(declared)[:len(declared) - at - 1]
                        for s2, _ in r[1:]:
                            s3 = s2.copy()
                            extra.append(s3)
                            extra += self.scope_exit(rest, s3, n, fr, out)
                        s2 = r[0][0]
                        st.store, st.env, st.facts, st.ev, st.held, st.n, st.guard = s2.store, s2.env, s2.facts, s2.ev, s2.held, s2.n, s2.guard
        return extra

    def user_dtor(self, cls):
        for f in self.p.methods.get(cls, []):
            if f.get('dtor') and not f.get('implicit') and not f.get('defaulted'):
                return f
        return None

    def s_decl(self, n, st, fr):
        outs = [st]
        for d in n['d']:
            nx = []
            for s in outs:
                nx += self.declare(d, s, fr)
            outs = nx
        return [Out(s, 'n') for s in outs]

    def declare(self, d, st, fr):
        root = ('v', fr.id, d['id'], d['n'])
        if d.get('static'):
            st.env[(fr.id, d['id'])] = (('glob', d.get('q') or d['n']), ())
            return [st]
        if d.get('ref') and d.get('init'):
            r = []
            for s, v in self.ev(d['init'], st, fr):
                if isinstance(v, L):
                    s.env[(fr.id, d['id'])] = (v.root, v.path, v.cls)
                else:
                    s.store[root] = v
                r.append(s)
            return r
        if d.get('init') is None:
            st.store[root] = ('undef', d['n'])
            self.emit(st, 'local', {'l': d['l']}, fr, root=root, decl=d)
            return [st]
        if d.get('arr') is not None or d['t'].startswith('lp::') or True:
            self.emit(st, 'local', {'l': d['l']}, fr, root=root, decl=d)
        st.env.pop((fr.id, d['id']), None)
        return self.construct(d['init'], L(root, (), None, d['t']), st, fr)

    def s_if(self, n, st, fr):
        sts = [st]
        decls = []
        if n.get('i'):
            sts = [o.st for s in sts for o in self.ex(n['i'], s, fr)]
            if n['i']['k'] == 'decl':
                decls += n['i']['d']
        if n.get('cv'):
            sts = [x for s in sts for x in self.declare(n['cv'], s, fr)]
            decls.append(n['cv'])
        outs = []
        for s in sts:
            for s2, b in self.cond(n['c'], s, fr):
                if b:
                    outs += self.ex(n['x'], s2, fr)
                elif n.get('y'):
                    outs += self.ex(n['y'], s2, fr)
                else:
                    outs.append(Out(s2, 'n'))
        if decls:
            outs += [Out(s2, o.kind, o.val) for o in list(outs) for s2 in self.scope_exit(decls, o.st, n, fr, o)]
        return self.merge(outs)

    def s_switch(self, n, st, fr):
        sts = [st]
        if n.get('i'):
            sts = [o.st for s in sts for o in self.ex(n['i'], s, fr)]
        if n.get('cv'):
            sts = [x for s in sts for x in self.declare(n['cv'], s, fr)]
        outs = []
        for s in sts:
            for s1, v in self.evr(n['c'], s, fr):
                rest = [s1]
                dflt = None
                for i, seg in enumerate(n['segs']):
                    hit = []
                    for lab in seg['labels']:
                        if lab == 'default':
                            dflt = i
                            continue
                        nrest = []
                        for s2 in rest:
                            for s3, c in self.evr(lab, s2, fr):
                                at, pol = self.eq_atom(v, c, True)
                                for s4, b in self.fork(s3, at):
                                    (hit if b == pol else nrest).append(s4)
                        rest = nrest
                    for h in hit:
                        outs += self.run_segs(n, i, h, fr)
                if dflt is not None:
                    for s2 in rest:
                        outs += self.run_segs(n, dflt, s2, fr)
                elif not (n.get('all') and n.get('enum')):
                    outs += [Out(s2, 'n') for s2 in rest]
        return self.merge(outs)

    def run_segs(self, n, i, st, fr):
        live = [st]
        outs = []
        for seg in n['segs'][i:]:
            blk = {'k': 'block', 's': seg['s'], 'l': n['l']}
            nx = []
            for s in live:
                for o in self.ex(blk, s, fr):
                    if o.kind == 'n':
                        nx.append(o.st)
                    elif o.kind == 'b':
                        outs.append(Out(o.st, 'n'))
                    else:
                        outs.append(o)
            live = nx
            if not live:
                break
        return outs + [Out(s, 'n') for s in live]

    def s_try(self, n, st, fr):
        save = self.collect
        mine = []
        self.collect = mine
        self.emit(st, 'try', n, fr)
        outs = self.ex(n['b'], st, fr)
        self.collect = save
        for s, e in mine:
            handled = False
            for h in n['h']:
                t = h['t'].replace('const ', '').replace(' &', '').strip()
                if t == '...' or t in e.bases or t == e.tt or h.get('q') in e.bases:
                    handled = True
                    s = s.copy()
                    if h.get('v'):
                        v = h['v']
                        s.store[('v', fr.id, v['id'], v['n'])] = ('exc', e.tt) + tuple(e.args)
                    old = s.store.get(('curexc',))
                    s.store[('curexc',)] = ('exc', e.tt, tuple(e.bases))
                    self.emit(s, 'catch', h['b'], fr, tt=e.tt, ht=t, exc=e)
                    for o in self.ex(h['b'], s, fr):
                        if old is None:
                            o.st.store.pop(('curexc',), None)
                        else:
                            o.st.store[('curexc',)] = old
                        outs.append(o)
                    break
            if not handled:
                self.collect.append((s, e))
        return outs

    # ------------------------------------------------------------------- loops
    def leading(self, n, c, b):
        """condition and body of a loop, with 'if(X) break;' at the start of the body taken as a part of the condition"""
        while b and b['k'] == 'block' and b['s']:
            i = b['s'][0]
            if i['k'] != 'if' or i.get('y') is not None or i.get('i') is not None or i.get('cv') is not None or i.get('x') is None:
                break
            x = i['x']
            while x['k'] == 'block' and len(x['s']) == 1:
                x = x['s'][0]
            if x['k'] != 'break':
                break
            g = i['c']
            if g['k'] == 'un' and g['op'] == '!':
                g = g['e']
            else:
                g = {'k': 'un', 'op': '!', 'e': g, 'l': i.get('l'), 't': 'bool'}
            if c is None or c['k'] == 'bool' and c['v'] or c['k'] == 'int' and int(c['v']):
                c = g
            else:
                c = {'k': 'bin', 'op': '&&', 'x': c, 'y': g, 'l': i.get('l'), 't': 'bool'}
            b = dict(b, s=b['s'][1:])
        return c, b

    def s_while(self, n, st, fr):
        c, b = (n['c'], n['b']) if n.get('cv') else self.leading(n, n['c'], n['b'])
        return self.loop(n, st, fr, c, None, b, cv=n.get('cv'))

    def s_do(self, n, st, fr):
        outs = []
        for o in self.ex(n['b'], st, fr):
            if o.kind in ('n', 'c'):
                outs += self.loop(n, o.st, fr, n['c'], None, n['b'])
            elif o.kind == 'b':
                outs.append(Out(o.st, 'n'))
            else:
                outs.append(o)
        return self.merge(outs)

    def s_for(self, n, st, fr):
        sts = [st]
        if n.get('i'):
            sts = [o.st for s in sts for o in self.ex(n['i'], s, fr)]
        outs = []
        c, b = (n.get('c'), n['b']) if n.get('cv') else self.leading(n, n.get('c'), n['b'])
        for s in sts:
            outs += self.loop(n, s, fr, c, n.get('n'), b, cv=n.get('cv'))
        return outs

    def s_rfor(self, n, st, fr):
        outs = []
        for s, v in self.ev(n['r'], st, fr):
            cont = self.read(s, v, n, fr)
            if cont == EMPTY:
                outs.append(Out(s, 'n'))
                continue
            mp = is_map(n['r'].get('t', ''))
            els = None if mp else self.listed(cont)
            if els is not None:
                outs += self.each_listed(n, s, fr, v, els)
                continue
            outs += self.foreach(n, s, fr, v if isinstance(v, L) else None, cont, mp,
                                 lambda st2, lid, el, eloc: self.bind_elem(n['v'], st2, fr, el, eloc),
                                 lambda st2: self.ex(n['b'], st2, fr))
        return outs

    def listed(self, cont):
        """the elements of a container that is known element by element"""
        r = []
        while cont[0] == 'app':
            r.append(cont[2])
            cont = cont[1]
        r.reverse()
        return r if cont == EMPTY and 0 < len(r) <= 6 else None

    def each_listed(self, n, st, fr, v, els):
        live, done = [st], []
        for i, el in enumerate(els):
            nx = []
            for s in live:
                if isinstance(v, L):
                    eloc = (v.root, v.path + (('at', C(i)),))
                else:
                    root = ('el', ('L', n['l'], s.uid()))
                    s.store[root] = el
                    eloc = (root, ())
                for o in self.ex(n['b'], self.bind_elem(n['v'], s, fr, el, eloc), fr):
                    if o.kind in ('n', 'c'):
                        nx.append(o.st)
                    elif o.kind == 'b':
                        done.append(Out(o.st, 'n'))
                    else:
                        done.append(o)
            live = nx
        return self.merge([Out(s, 'n') for s in live] + done)

    def bind_elem(self, d, st, fr, el, eloc):
        root = ('v', fr.id, d['id'], d['n'])
        st.env.pop((fr.id, d['id']), None)
        if d.get('ref'):
            st.env[(fr.id, d['id'])] = eloc
        else:
            st.store[root] = el
        return st

    def algorithm(self, name, n, vs, st, fr):
        a, b = self.read(st, vs[0], n, fr), self.read(st, vs[1], n, fr)
        fn = self.read(st, vs[2], n, fr)
        whole = a[0] == 'it' and b[0] == 'it' and a[3] == C(0) and b[3] == ('end',) and a[2] == b[2]
        cont = a[2] if whole else ('range', a, b)
        mp = a[0] == 'it' and a[4]
        cell = {}

        def bind(st2, lid, el, eloc):
            cell['el'] = L(eloc[0], eloc[1]) if name == 'for_each' else el
            return st2

        def body(st2):
            outs = []
            for s, v in self.invoke(fn, [cell['el']], n, st2, fr):
                if name in ('for_each', 'count_if'):
                    outs.append(Out(s, 'n'))
                    continue
                t = self.read(s, v, n, fr)
                at, pol = self.truth_atom(t)
                for s2, x in self.fork(s, at):
                    stop = (x == pol) == (name != 'all_of' and name != 'find_if_not')
                    outs.append(Out(s2, 'b' if stop else 'n'))
            return outs
        rloc = L(a[1][0], a[1][1]) if whole and a[1] else None
        outs = self.foreach(n, st, fr, rloc, cont, mp, bind, body, alg=name, mark=True)
        r = []
        for o in outs:
            early = o.val == 'early'
            if name == 'for_each':
                r.append((o.st, fn))
            elif name == 'any_of':
                r.append((o.st, C(early)))
            elif name in ('none_of', 'all_of'):
                r.append((o.st, C(not early)))
            elif name == 'count_if':
                r.append((o.st, ('unk', 'count_if', o.st.uid())))
            else:
                pos = ('posif', a[2], fn) if whole else ('posif', cont, fn)
                if early:
                    o.st.facts = dict(o.st.facts)
                    o.st.facts[('exists', pos[1], pos[2])] = True
                    lid = [e for e in o.st.events() if e.k == 'loop'][-1].id
                    r.append((o.st, ('it', a[1], a[2], ('ind', lid), mp)))
                else:
                    r.append((o.st, ('it', a[1], a[2], ('end',), mp)))
        return r

    def diff(self, a, b, path=()):
        """paths at which record terms differ"""
        if a == b:
            return []
        if b[0] == 'rec':
            abase = a[1] if a[0] == 'rec' else a
            if abase == b[1]:
                names = {x for x, _ in b[2]} | ({x for x, _ in a[2]} if a[0] == 'rec' else set())
                r = []
                for x in sorted(names):
                    r += self.diff(select(a, x), select(b, x), path + (x,))
                return r
        return [path]

    def changed(self, s0, s1, ignore=()):
        r = set()
        for k, v in s1.store.items():
            if k[0] == 'tmp' or k[0] == 'curexc':
                continue
            if k in s0.store:
                o = s0.store[k]
            elif self.shared(k) and k[0] != 'obj' and k[0] != 'el':
                o = ('init', k)
            else:
                continue
            if o is not v and o != v:
                for p in self.diff(o, v):
                    r.add((k, p))
        return r

    def foreach(self, n, st, fr, rloc, cont, mp, bind, body, alg=None, mark=False):
        """range loop over all elements of `cont`"""
        self.nloops += 1
        lid = ('L', n['l'], st.uid())
        ind = ('ind', lid)
        H = {}
        induct = {}       # counters and iterators that step along: loc -> step
        noind = set()
        for _ in range(12):
            s = st.copy()
            s.ev = None
            for loc in H:
                if loc in induct:
                    self.rawset(s, L(loc[0], loc[1]), self.stepped(path_get(st.store.get(loc[0], ('init', loc[0])), loc[1]), mul(ind, C(induct[loc]))))
                else:
                    self.rawset(s, L(loc[0], loc[1]), ('lv', lid, loc))
            el = map_entry(cont, ind) if mp else sel_at(cont, ind)
            if rloc is not None:
                if mp:
                    eloc = (rloc.root, rloc.path + (('ent', ind, key_of(cont, ind)),))
                else:
                    eloc = (rloc.root, rloc.path + (('at', ind),))
                if self.pol.reads and self.shared(rloc.root):
                    pass
            else:
                r = ('el', lid)
                s.store[r] = el
                eloc = (r, ())
            s = bind(s, lid, el, eloc)
            base = s.copy()
            save, mine = self.collect, []
            self.collect = mine
            outs = body(s)
            self.collect = save
            new = set()
            for o in outs:
                if o.kind in ('n', 'c'):
                    new |= self.changed(base, o.st)
            new = {x for x in new if x not in H and not any(h[0] == x[0] and x[1][:len(h[1])] == h[1] for h in H)}
            bad = self.wrong_steps(induct, noind, base, outs)
            if not new and not bad:
                break
            for x in new:
                H[x] = True
                self.guess_step(x, st, induct, noind)
        return self.finish(n, st, fr, lid, base, outs, mine, H, dict(kind='foreach', cont=cont, cloc=rloc.loc if rloc is not None else None, start=C(0), step=1, full=True, guard=(), alg=alg, induct={k: (path_get(st.store.get(k[0], ('init', k[0])), k[1]), v) for k, v in induct.items()}), None, mark)

    def stepped(self, pre, d):
        return self.arith('+', pre, d) if pre[0] == 'it' else add(pre, d)

    def guess_step(self, x, st, induct, noind):
        pre = path_get(st.store.get(x[0], ('init', x[0])), x[1])
        if (pre[0] in ('it',) and pre[3] != ('end',) or is_int(pre) or pre[0] in ('size', 'lin')) and (x, 1) not in noind and pre not in (TRUE, FALSE):
            induct[x] = 1

    def wrong_steps(self, induct, noind, base, outs):
        """drops the guesses that some way through the body does not keep"""
        bad = False
        for loc, step in list(induct.items()):
            cur = path_get(base.store.get(loc[0], ('init', loc[0])), loc[1])
            want = self.stepped(cur, C(step))
            for o in outs:
                if o.kind in ('n', 'c'):
                    got = path_get(o.st.store.get(loc[0], ('init', loc[0])), loc[1])
                    if got != want:
                        bad = True
                        del induct[loc]
                        if step == 1 and (loc, -1) not in noind:
                            noind.add((loc, 1))
                            induct[loc] = -1
                        else:
                            noind.add((loc, -1))
                        break
        return bad

    def finish(self, n, st, fr, lid, base, outs, thrown, H, info, exit_states, mark=False):
        bodies = []
        exits = set()
        res = []
        pre_facts = set(base.facts.items())

        def delta(s):
            return tuple((k, v) for k, v in s.facts.items() if (k, v) not in pre_facts)
        for o in outs:
            kind = {'n': 'next', 'c': 'next', 'b': 'break', 'r': 'return'}[o.kind]
            upd = {loc: path_get(o.st.store.get(loc[0], ('init', loc[0])), loc[1]) for loc in H}
            bodies.append(dict(kind=kind, events=o.st.events(), facts=delta(o.st), upd=upd, val=o.val, held=o.st.held))
            if kind != 'next':
                exits.add(kind)
        for s, e in thrown:
            bodies.append(dict(kind='throw', events=s.events(), facts=delta(s), upd={}, val=e, held=s.held))
            exits.add('throw')
        pre = {loc: path_get(st.store.get(loc[0], ('init', loc[0])), loc[1]) for loc in H}
        info = dict(info, id=lid, bodies=bodies, exits=exits, H=H, line=n['l'], pre=pre)
        member = self.search_loop(info, lid)
        src = (fr.f['file'], n['l'], fr.f['q'])
        lev = Ev('loop', src, st.held, info, st.facts)

        def attach(s, with_events):
            evs = s.ev
            tail = []
            while evs is not None:
                tail.append(evs[1])
                evs = evs[0]
            tail.reverse()
            s.ev = (st.ev, lev)
            if with_events:
                s.ev = (s.ev, Ev('iterexit', src, s.held, {'id': lid}))
                for e in tail:
                    s.ev = (s.ev, e)
            return s
        # normal exit
        if exit_states is None:
            s = base.copy()
            s.ev = None
            if info['kind'] == 'foreach':
                for k in list(s.facts):
                    pass
            # a finished iteration leaves nothing but the widened state
            s.facts = dict(st.facts)
            for loc, step in info['induct'].items():
                if step[0][0] == 'it':
                    self.rawset(s, L(loc[0], loc[1]), ('lv', lid, loc))
                else:
                    self.rawset(s, L(loc[0], loc[1]), add(step[0], mul(size(info['cont']), C(step[1]))))
            # element variables are gone
            ex = [s]
        else:
            ex = exit_states
        if member and not member[1]:
            # a search that ran to its end without finding
            ex = [z for s in ex for z in self.assume(s, member[0], False)]
        elif member:
            ex2 = []
            for s in ex:
                for z, found in self.fork(s, member[0]):
                    z = z.copy()
                    for loc, v in member[1].items():
                        self.rawset(z, L(loc[0], loc[1]), v if found else pre[loc])
                    ex2.append(z)
            ex = ex2
        for s in ex:
            s = attach(s, False)
            s.n = max([s.n] + [o.st.n for o in outs] + [x.n for x, _ in thrown])
            res.append(Out(s, 'n', 'full' if mark else None))
        for o in outs:
            if member and not member[1] and o.kind in 'br':
                z = self.assume(o.st, member[0], True)
                if not z:
                    continue
                o.st = z[0]
            if o.kind == 'b':
                res.append(Out(attach(o.st, True), 'n', 'early' if mark else None))
            elif o.kind == 'r':
                res.append(Out(attach(o.st, True), 'r', o.val))
        for s, e in thrown:
            self.collect.append((attach(s, True), e))
        return self.merge(res) if not mark else res

    def search_loop(self, info, lid):
        """a loop that looks for an element equal to a fixed value: (membership atom, {} if it
        stops at the element, else {location: value it is left with when the element is there})"""
        if info['kind'] != 'foreach' or not info['full'] or info['cont'] is None or not info['bodies']:
            return None
        cont, ind = info['cont'], ('ind', lid)
        els = (sel_at(cont, ind), ('key', cont, ind))
        cand = set()
        for b in info['bodies']:
            for a, v in b['facts']:
                if a[0] == 'eq' and (a[1] in els or a[2] in els):
                    cand.add(a)
        if len(cand) != 1:
            return None
        a = cand.pop()
        x = a[2] if a[1] in els else a[1]
        if contains(x, lambda t: t == ind or t[0] == 'lv' and t[1] == lid):
            return None
        at = self.in_atom(x, cont)
        hit = [b for b in info['bodies'] if (a, True) in b['facts']]
        miss = [b for b in info['bodies'] if (a, False) in b['facts']]
        if len(hit) + len(miss) != len(info['bodies']) or not hit:
            return None
        if any(b['kind'] != 'next' for b in miss) or any(v != ('lv', lid, loc) for b in miss for loc, v in b['upd'].items()):
            return None
        if all(b['kind'] in ('break', 'return', 'throw') for b in hit):
            return at, {}
        if all(b['kind'] == 'next' for b in hit) and info['H']:
            vals = {}
            for loc in info['H']:
                vs = {b['upd'][loc] for b in hit}
                if len(vs) != 1 or not is_const(next(iter(vs))):
                    return None
                vals[loc] = vs.pop()
            return at, vals
        return None

    def loop(self, n, st, fr, cnode, inc, bnode, cv=None):
        self.nloops += 1
        lid = ('L', n['l'], st.uid())
        ind = ('ind', lid)
        H = {}
        induct = {}       # loc -> step
        noind = set()
        for rnd in range(12):
            s = st.copy()
            s.ev = None
            for loc in H:
                l = L(loc[0], loc[1])
                pre = path_get(st.store.get(loc[0], ('init', loc[0])), loc[1])
                if loc in induct:
                    self.rawset(s, l, self.stepped(pre, mul(ind, C(induct[loc]))))
                else:
                    self.rawset(s, l, ('lv', lid, loc))
            base = s.copy()
            save, mine = self.collect, []
            self.collect = mine
            # condition
            if cv:
                cs = [x for x in self.declare(cv, s, fr)]
            else:
                cs = [s]
            trues, falses = [], []
            if cnode is None:
                trues = cs
            else:
                for c in cs:
                    for s2, b in self.cond(cnode, c, fr):
                        (trues if b else falses).append(s2)
            outs = []
            guards = []
            for t in trues:
                guards.append(tuple((k, v) for k, v in t.facts.items() if base.facts.get(k) != v))
                outs += self.ex(bnode, t, fr)
            # increment on next/continue
            if inc is not None:
                o2 = []
                for o in outs:
                    if o.kind in ('n', 'c'):
                        o2 += [Out(s3, 'n') for s3, _ in self.ev(inc, o.st, fr)]
                    else:
                        o2.append(o)
                outs = o2
            self.collect = save
            new = set()
            for o in outs:
                if o.kind in ('n', 'c'):
                    new |= self.changed(base, o.st)
            # changes made by the condition itself
            for s2 in falses:
                new |= self.changed(base, s2)
            grow = {x for x in new if x not in H and not any(h[0] == x[0] and x[1][:len(h[1])] == h[1] for h in H)}
            bad = self.wrong_steps(induct, noind, base, outs)
            if not grow and not bad:
                break
            for x in grow:
                H[x] = True
                self.guess_step(x, st, induct, noind)
        else:
            raise AnalysisError('loop at %s:%d does not stabilise' % (fr.f['file'], n['l']))
        # classification
        info = dict(kind='loop', guard=guards, cont=None, full=False, start=None, step=None, induct={k: (path_get(st.store.get(k[0], ('init', k[0])), k[1]), v) for k, v in induct.items()})
        g = guards[0] if len(guards) == 1 else None
        for loc, step in induct.items():
            pre = path_get(st.store.get(loc[0], ('init', loc[0])), loc[1])
            p0 = pre[3] if pre[0] == 'it' else pre
            if g is not None and len(g) > 1 and step == 1 and p0 == C(0) and pre[0] != 'it':
                # i < a && i < b: counts up to the smaller one
                bs = []
                for at, val in g:
                    c, d = to_lin(at[1]) if at[0] == 'lt0' and val else (0, {})
                    if d.get(ind) == 1:
                        b = sub(ind, at[1])
                        bs.append(None if contains(b, lambda y: y == ind) else b)
                    else:
                        bs.append(None)
                if None not in bs:
                    info.update(full=True, cont=None, bound=('min',) + tuple(bs), start=C(0), step=1, kind='count')
                    break
            if g is None or len(g) != 1:
                continue
            (at, val), = g
            if at[0] not in ('lt0', 'eq0'):
                continue
            c, d = to_lin(at[1])
            if ind not in d:
                continue
            sz = [t for t in d if t[0] == 'size']
            others = [t for t in d if t != ind and t[0] != 'size']
            if step == 1 and p0 == C(0) and len(d) == 2 and len(sz) == 1 and c == 0:
                if at[0] == 'lt0' and val and d[ind] == 1 and d[sz[0]] == -1 or at[0] == 'eq0' and not val and d[ind] == -d[sz[0]]:
                    info.update(full=True, cont=sz[0][1], start=C(0), step=1, kind='foreach')
                    break
            if len(d) == 2 and not sz and c == 0 and step == 1 and p0 == C(0):
                o = others[0]
                if at[0] == 'lt0' and val and d[ind] == 1 and d[o] == -1 or at[0] == 'eq0' and not val:
                    info.update(full=True, cont=None, bound=o, start=C(0), step=1, kind='count')
                    break
            info.update(start=p0, step=step, bound_atom=(at, val))
        r = self.finish(n, st, fr, lid, base, outs, mine, H, info, falses)
        if cv:
            r += [Out(s2, o.kind, o.val) for o in list(r) for s2 in self.scope_exit([cv], o.st, n, fr, o)]
        return r

    # ------------------------------------------------------------------- entry
    def run(self, f, args=None, this=('addr', (('this',), ())), caps=None, pre=None, held=()):
        """abstract paths of function record f"""
        st = St()
        st.held = held
        fr = Frame(f, ('f', st.uid()), this if ('cls' in f and not f.get('static') and not f.get('lam')) else None, (f['id'],))
        for i, p in enumerate(f['params']):
            root = ('v', fr.id, p['id'], p['n'])
            if args is not None and i < len(args) and args[i] is not None:
                if isinstance(args[i], L):
                    st.env[(fr.id, p['id'])] = (args[i].root, args[i].path, args[i].cls)
                else:
                    st.store[root] = args[i]
            elif p.get('ref'):
                st.env[(fr.id, p['id'])] = (('pref', i), ())
                st.store[('pref', i)] = ('p', i)
            else:
                st.store[root] = ('p', i)
        if f.get('lam'):
            fr.this = ('addr', (('this',), ()))
        if caps:
            for c in caps:
                if c[0] == 'this':
                    fr.this = c[1]
                elif c[0] == 'ref':
                    st.env[(fr.id, c[1])] = c[2]
                else:
                    st.store[('v', fr.id, c[1], c[3])] = c[2]
        if f.get('isctor'):
            st.store[('this',)] = ('zero', f['cls'])
        if pre:
            pre(st, fr)
        self.collect = []
        self.covered.add(f['id'])
        outs = self.run_body(f, fr, st)
        paths = []
        for o in outs:
            paths.append(Path(o.st, 'return', o.val))
        for s, e in self.collect:
            paths.append(Path(s, 'throw', e))
        self.collect = None
        return paths


PURE = {'strlen', 'json_object_get_type', 'S_ISREG', 'json_object_array_length'}


class Path:
    def __init__(s, st, kind, val):
        s.st, s.kind, s.val = st, kind, val
        s.events = st.events()
        s.facts = st.facts
        s.store = st.store

    def get(s, loc):
        return path_get(s.store.get(loc[0], ('init', loc[0])), loc[1])

    def flat(s, loops=True):
        """events with those inside loop bodies spliced in (marked by nesting)"""
        return flatten(s.events)


def flatten(evs):
    for e in evs:
        yield e
        if e.k == 'loop':
            for b in e.bodies:
                for x in flatten(b['events']):
                    yield x
