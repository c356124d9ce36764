"""Rules about datagrams and messages leaving and entering the process: the wire format, JSON, raw bytes."""
import glob
import re
from ..prog import REPO, walk
from .data import *

SCH = 'lp::schemas::'


def schema():
    """the tables of the schemas of /repo: {table: [(field, type)]} in the order of their slots"""
    tables, enums = {}, {}
    for p in sorted(glob.glob(os.path.join(REPO, 'schemas/*.fbs'))):
        with open(p) as f:
            t = re.sub(r'//[^\n]*', '', f.read())
        for name, body in re.findall(r'\btable\s+(\w+)[^{]*\{([^}]*)\}', t):
            fs = []
            for d in body.split(';'):
                m = re.match(r'\s*(\w+)\s*:\s*([\[\]\w.]+)\s*(?:=\s*([^\s(]+))?\s*(?:\(([^)]*)\))?', d)
                if m:
                    if m.group(4) and 'deprecated' in m.group(4):
                        continue
                    i = re.search(r'\bid\s*:\s*(\d+)', m.group(4) or '')
                    fs.append((int(i.group(1)) if i else len(fs), m.group(1), m.group(2), m.group(3)))
            tables[name] = [(n, ty, df) for _, n, ty, df in sorted(fs)]
        for name, ty in re.findall(r'\benum\s+(\w+)\s*:\s*(\w+)', t):
            enums[name] = ty
    return tables, enums


SCALARS = ('bool', 'byte', 'ubyte', 'short', 'ushort', 'int', 'uint', 'float', 'long', 'ulong', 'double', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64', 'float32', 'float64')


class Wire:
    """what a serialising function puts into the slots of a table, and what a reading
    function makes of them"""

    def __init__(self, c):
        self.c = c
        self.tables, self.enums = schema()
        self.need = {}

    def default(self, ty, df):
        if ty in SCALARS or ty in self.enums:
            if df in (None, '0'):
                return FALSE if ty == 'bool' else C(0)
            return ('default', df)
        return NULL

    def strip(self, t):
        """the value behind an offset into the builder"""
        t = strip_own(unmoved(t))
        if t[0] == 'res':
            n = base_name(t[1])
            if n in ('CreateString', 'CreateSharedString') and len(t[2]) >= 2:
                return ('wstr', unmoved(t[2][1]))
            if n in ('CreateVector', 'CreateVectorOfStrings') and len(t[2]) >= 2:
                a = strip_own(unmoved(t[2][1]))
                return ('wvec', a)
        if t[0] == 'zero' or t == C(0) or t == NULL:
            return NULL
        return t

    def slots(self, x, table, evs=None):
        """the table built on path x -> ({field: value}, event), or None"""
        fs = self.tables.get(table)
        if fs is None:
            raise AnalysisError('no table %s in the schemas' % table)
        made = None
        parts = {}
        for e in x.events if evs is None else evs:
            if e.k != 'call' or not e.q.startswith(SCH):
                continue
            n = base_name(e.q)
            if n in ('Create' + table, 'Create' + table + 'Direct'):
                d = {}
                for i, (f, ty, df) in enumerate(fs):
                    if i + 1 < len(e.args):
                        d[f] = self.slot(e.args[i + 1], ty, n.endswith('Direct'))
                    else:
                        d[f] = self.default(ty, df)
                made = (d, e)
            elif e.q.startswith(SCH + table + 'Builder::add_') and e.args:
                f = n[len('add_'):]
                ty = [y for m, y, _ in fs if m == f]
                parts[f] = self.slot(e.args[0], ty[0] if ty else 'table', False)
            elif e.q.startswith(SCH + table + 'Builder::') and n == 'Finish':
                made = ({f: parts.get(f, self.default(ty, df)) for f, ty, df in fs}, e)
        return made

    def slot(self, t, ty, direct):
        if ty in SCALARS or ty in self.enums:
            return unmoved(t)
        if direct:
            t = unmoved(t)
            if t[0] == 'addr' or ty.startswith('['):
                return ('wvec', t) if ty.startswith('[') else ('wstrz', t)
            return ('wstrz', t) if ty == 'string' else t
        return self.strip(t)

    def subst(self, t, table, root, slots):
        """t with what the accessors of the table at root give replaced by what was put into the slots"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == 'res' and isinstance(t[1], str):
            if t[1].startswith(SCH + table + '::') and t[2] == (root,):
                f = base_name(t[1])
                if f in slots:
                    return slots[f]
            args = tuple(self.subst(a, table, root, slots) if isinstance(a, tuple) else a for a in t[2])
            n = base_name(t[1])
            if t[1].startswith('flatbuffers::') and args and isinstance(args[0], tuple) and args[0][0] == 'init' and args[0][1][0] == 'deref':
                o = args[0][1][1]
                if o[0] == 'wstr' and n == 'str':
                    return o[1]
                if o[0] == 'wvec':
                    if n in ('size', 'Length'):
                        return ('vsize', o[1])
                    if n in ('operator[]', 'Get', 'GetAsString') and len(args) == 2:
                        return ('velem', o[1], args[1])
            return ('res', t[1], args) + t[3:]
        if t[0] == 'lin':
            r = C(t[1])
            for y, k in t[2]:
                r = add(r, mul(C(k), self.subst(y, table, root, slots)))
            return r
        r = tuple(self.subst(y, table, root, slots) if isinstance(y, tuple) else y for y in t)
        if r[0] == 'at' and r[1][0] == 'init' and r[1][1][0] == 'deref' and r[1][1][1][0] == 'wvec':
            return ('velem', r[1][1][1][1], r[2])
        if r[0] == 'size' and r[1][0] == 'init' and r[1][1][0] == 'deref' and r[1][1][1][0] == 'wvec':
            return ('vsize', r[1][1][1][1])
        return r

    def feasible(self, x, table, root, slots):
        """can path x of the reading function be taken when the slots hold these values?"""
        for a, v in x.facts.items():
            b = self.subst(a, table, root, slots)
            if b[0] == 'null':
                o = b[1]
                k = True if o == NULL else False if o[0] in ('wstr', 'wvec', 'wstrz') or o[0] == 'res' and base_name(o[1]).startswith(('Create', 'Serialize', 'Deserialize')) else None
            elif b[0] == 'eq0' and is_const(b[1]):
                k = b[1][1] == 0
            elif b[0] == 'lt0' and is_const(b[1]):
                k = b[1][1] < 0
            else:
                continue
            if k is not None and k != v:
                return False
        return True


def seq_items(x, t):
    """the sequence t holds at the end of path x: ('none',) when it is empty, or what a loop puts into it"""
    t = strip_own(unmoved(t))
    if t == EMPTY:
        return ('none', None)
    fl = filled(x, t)
    if fl and fl.items and fl.start == EMPTY and visits_all(fl.loop):
        return ('each', fl)
    return (None, None)


def bound_terms(loop):
    """the sizes the index of a counting loop stays below"""
    r = []
    for g in loop.guard:
        for t, v in g:
            if t[0] == 'lt0' and v is True:
                d = sub(t[1], ('ind', loop.id))
                o = sub(C(0), d)
                r.append(o)
                for y in subterms(o):
                    if y[0] == 'min':
                        r += [y[1], y[2]]
    return r


# ------------------------------------------------------------------- C14
TABLE = 'FBDatagram'


def c14(c):
    c14_used.clear()
    r = Raw(c)
    w = Wire(c)
    if not r.distinct():
        return
    sf = c.one(RAW + '::SerializeToStructure', 1)
    df = c.one(RAW + '::DeserializeFromStructure', 1)
    SER, DES = sf['q'], df['q']
    root = ('init', ('deref', ('p', 0)))
    reads = [x for x in c.run(df, DataPolicy())]
    v0 = ('fld', ('init', THIS), r.value)
    cases = [(k, None) for k in KINDS if k != 'Value'] + [('Value', t) for t in TYPES]
    cast = {f['ta'][0]: ('dyncast', DATA + '<' + f['ta'][0] + '>', v0) for f in r.fns(RAW, 'Get')}
    for k, tk in cases:
        def more(st, fr):
            for ty, t in cast.items():
                st.facts[('null', t)] = kind_of_type(ty) != tk
        n = 0
        name = 'a %s' % (tk + ' value' if tk else k.lower() + ' datagram')
        for x in r.run(sf, k, more=more if tk else None):
            if not c.ob(x.kind == 'return', 'serialising does not fail', x.val.src if x.kind == 'throw' else sf, outcome(x)):
                continue
            unchanged(c, r, sf, k, x, 'serialising changes nothing')
            whole_strings(c, x)
            m = w.slots(x, TABLE)
            if not c.ob(m is not None, 'serialising builds the table of a datagram', sf, '%s' % name):
                continue
            slots, at = m
            rv = x.val
            ev_ok = rv[0] == 'res' and rv[1] == at.q or base_name(at.q) == 'Finish' and (rv[0] in ('res', 'new', 'conv') )
            c.ob(ev_ok, 'serialising gives the table it built', at, show(rv)[:100])
            n += 1
            back = [y for y in reads if w.feasible(y, TABLE, root, slots)]
            if not c.ob(bool(back), '%s that was serialised can be read back' % name, at, 'no path of the reader accepts it'):
                continue
            for y in back:
                if not c.ob(y.kind == 'return', '%s that was serialised can be read back' % name, y.val.src if y.kind == 'throw' else df, outcome(y)):
                    continue
                p = strip_own(y.val)
                what = '%s is read back as what it was' % name
                if not c.ob(p[0] == 'addr' and p[1][1] == (), what, df, show(p)):
                    continue
                st = r.state(y, root=p[1][0])
                if not c.ob(st[r.tag] == r.tags[k], what, df, 'read as a datagram with tag %s' % show(st[r.tag])):
                    continue
                if k == 'Value':
                    ok, why = value_back(c, r, w, y, st, slots, root, tk, cast)
                    c.ob(ok, what, df, why)
                elif k == 'List':
                    c.ob(list_back(r, w, x, y, st, slots, root, SER, DES), what, df, 'the elements of the list do not come back one by one in order')
                elif k == 'Dictionary':
                    c.ob(dict_back(r, w, x, y, st, slots, root, SER, DES), what, df, 'the keys and their contents do not come back together')
                c.ob(r.consistent(st) == k, what, df, 'tag and content disagree')
        c.ob(n > 0, 'serialising %s' % name, sf)
    # scalars keep their range
    need = {'int': ('int', 'int32', 'long', 'int64'), 'double': ('double', 'float64'), 'bool': ('bool',), 'string': ('string',)}
    for tk in TYPES:
        used = c14_used.get(tk)
        ty = [y for f, y, _ in w.tables[TABLE] if f == used]
        c.ob(bool(ty) and ty[0] in need[tk], 'the slot of a %s is wide enough for it' % tk, sf, '%s: %s' % (used, ty))
    msg_roundtrip(c, r, w, SER, DES)


c14_used = {}


def value_back(c, r, w, y, st, slots, root, tk, cast):
    v = strip_own(st[r.value])
    if not (v[0] == 'addr' and v[1][1] == () and v[1][0][0] == 'obj'):
        return False, 'value %s' % show(v)
    cls = v[1][0][1][0]
    if not cls.startswith(DATA + '<') or kind_of_type(cls[len(DATA) + 1:-1]) != tk:
        return False, 'read back as %s' % cls
    m = [g['n'] for g in c.prog.fields(DATA)][0]
    t = path_get(y.store.get(v[1][0], ('?',)), (m,))
    got = w.subst(unmoved(t), TABLE, root, slots)
    want = [('fld', ('init', ('deref', cst)), m) for ty, cst in cast.items() if kind_of_type(ty) == tk]
    for f, s in slots.items():
        if s in want or s[0] == 'wstr' and s[1] in want:
            c14_used[tk] = f
    return got in want, 'its content comes back as %s' % show(got)


def same_loop(fl, a):
    return all(b is not None for b, _, _ in fl.items)


def velem_of(t, DES, vec):
    """the index when t is the datagram read from an element of vec"""
    if t and t[0] == 'res' and t[1] == DES:
        a = [y for y in t[2] if isinstance(y, tuple)][-1]
        if a[0] == 'addr' or a[0] == 'init':
            a = a[1][1] if a[0] == 'init' and a[1][0] == 'deref' else a
        if a[0] == 'velem' and a[1] == vec:
            return a[2]
    return None


def element_served(t, SER, cont):
    """the position when t is the table of an element of cont"""
    if t and t[0] == 'res' and t[1] == SER:
        a = t[2][0]
        if a[0] == 'init' and a[1][0] == 'deref' and a[1][1][0] == 'at' and a[1][1][1] == cont:
            return a[1][1][2]
    return None


def list_back(r, w, x, y, st, slots, root, SER, DES):
    src = ('fld', ('init', THIS), r.list)
    k, got = seq_items(y, st[r.list])
    if k is None:
        return False
    if k == 'none':
        # only right for a list that is empty
        return x.facts.get(('empty', src)) is True
    vec = None
    for b, key, el in got.items:
        if key is not None or el is None:
            return False
        e = w.subst(el, TABLE, root, slots)
        for t in subterms(e):
            if t[0] == 'velem':
                vec = t[1]
        if vec is None or velem_of(e, DES, vec) != ('ind', got.loop.id):
            return False
    if {w.subst(b, TABLE, root, slots) for b in bound_terms(got.loop)} != {('vsize', vec)} and not whole_vector(w, got.loop, vec, root, slots):
        return False
    k, put = seq_items(x, vec)
    if k != 'each' or put.loop.cont is not None and put.loop.cont != src:
        return False
    return all(key is None and element_served(el, SER, src) == ('ind', put.loop.id) for b, key, el in put.items) and covers(put.loop, src)


def covers(loop, src):
    return loop.cont == src or set(bound_terms(loop)) == {size(src)}


def whole_vector(w, loop, vec, root, slots):
    return loop.cont is not None and w.subst(loop.cont, TABLE, root, slots) == ('init', ('deref', ('wvec', vec)))


def dict_back(r, w, x, y, st, slots, root, SER, DES):
    src = ('fld', ('init', THIS), r.dict)
    k, got = seq_items(y, st[r.dict])
    if k is None:
        return False
    if k == 'none':
        return x.facts.get(('empty', src)) is True
    kv = vv = None
    ind = ('ind', got.loop.id)
    for b, key, el in got.items:
        if key is None or el is None:
            return False
        kt = w.subst(key, TABLE, root, slots)
        e = w.subst(el, TABLE, root, slots)
        if kt[0] == 'res' and base_name(kt[1]) == 'str' and kt[2][0][0] == 'init' and kt[2][0][1][0] == 'deref':
            kt = kt[2][0][1][1]
        if kt[0] != 'velem' or kt[2] != ind:
            return False
        kv = kt[1]
        for t in subterms(e):
            if t[0] == 'velem':
                vv = t[1]
        if vv is None or velem_of(e, DES, vv) != ind:
            return False
    bs = [w.subst(b, TABLE, root, slots) for b in bound_terms(got.loop)]
    if not (('vsize', kv) in bs or ('vsize', vv) in bs):
        return False
    # what bounds the loop besides the two sizes must not cut it short
    for b in bs:
        if b[0] != 'min' and b not in (('vsize', kv), ('vsize', vv)):
            return False
    ka, kput = seq_items(x, kv)
    va, vput = seq_items(x, vv)
    if ka != 'each' or va != 'each' or not covers(kput.loop, src) or not covers(vput.loop, src):
        return False
    for b, key, el in kput.items:
        el = w.strip(el) if el else None
        if key is not None or not el or el[0] != 'wstr' or el[1] != ('key', src, ('ind', kput.loop.id)):
            return False
    for b, key, el in vput.items:
        if key is not None or element_served(el, SER, src) != ('key', src, ('ind', vput.loop.id)):
            return False
    return True


def calls_in(evs):
    for e in evs:
        if e.k == 'loop':
            for b in e.bodies:
                yield from calls_in(b['events'])
        elif e.k == 'call':
            yield e


def whole_strings(c, x):
    """a string written by its C pointer alone ends at its first null character"""
    for e in calls_in(x.events):
        if base_name(e.q) in ('CreateString', 'CreateSharedString') and e.nodes and (e.nodes.get('f') or {}).get('pt') == ['const char *']:
            c.ob(is_const(unmoved(e.args[0])), 'strings are written whole', e, 'ends at the first null character')


class WirePolicy(DataPolicy):
    opaque = (RAW + '::SerializeToStructure', RAW + '::DeserializeFromStructure', RAW + '::Copy', 'lp::data::RawBytes::')


def msg_roundtrip(c, r, w, SER, DES):
    sf = c.one(MSG + '::SerializeToBytes', 0)
    df = c.one(MSG + '::Deserialize', 1)
    fs = [(g['n'], g['t']) for g in c.prog.fields(MSG)]
    reads = [y for y in c.run(df, WirePolicy()) if y.kind == 'return']
    c.ob(bool(reads), 'a serialised message can be read back', df)
    n = 0
    for x in c.run(sf, WirePolicy()):
        if x.kind != 'return':
            continue
        n += 1
        whole_strings(c, x)
        m = w.slots(x, 'FBMessage')
        if not c.ob(m is not None, 'serialising a message builds its table', sf):
            continue
        slots, at = m
        fin = [i for i, e in enumerate(x.events) if e.k == 'call' and base_name(e.q) == 'Finish' and e.q.startswith('flatbuffers::FlatBufferBuilder')]
        ptr = [(i, e) for i, e in enumerate(x.events) if e.k == 'call' and base_name(e.q) in ('GetBufferPointer', 'GetSize', 'Release', 'ReleaseRaw', 'GetBufferSpan')]
        ok = len(fin) == 1 and bool(ptr) and all(i > fin[0] for i, _ in ptr)
        fa = x.events[fin[0]].args[0] if fin else ('?',)
        c.ob(ok and (fa[0] == 'res' and fa[1] == at.q or base_name(at.q) == 'Finish'), 'the bytes of a message are taken after it was finished', x.events[fin[0]] if fin else sf, show(fa)[:80])
        p = strip_own(x.val)
        t = x.store.get(p[1][0], ('?',)) if p[0] == 'addr' else ('?',)
        ok = t[0] == 'new' and len(t[2]) == 2 and t[2][0][0] == 'res' and base_name(t[2][0][1]) in ('GetBufferPointer', 'data') and t[2][1][0] == 'res' and base_name(t[2][1][1]) in ('GetSize', 'size') and t[2][0][2] == t[2][1][2]
        c.ob(ok, 'the bytes of a message are all the builder holds', sf, show(t)[:200])
        for y in reads:
            rt = None
            for e in y.events:
                if e.k == 'call' and base_name(e.q) in ('GetFBMessage', 'GetRoot', 'GetSizePrefixedFBMessage'):
                    rt = ('init', ('deref', ('res', e.q, (None,) + e.args, 0)))
            roots = {t[2][0] for v in [y.val] for t in subterms(v) if t[0] == 'res' and t[1].startswith(SCH + 'FBMessage::')}
            if not c.ob(len(roots) == 1, 'a message is read from the bytes it is given', df, str(len(roots))):
                continue
            (rt,) = roots
            c.ob(contains(rt, lambda t: t == ('p', 0)) and 'Message' in repr(rt), 'a message is read from the bytes it is given', df, show(rt))
            if not w.feasible(y, 'FBMessage', rt, slots):
                continue
            for fn, ty in fs:
                got = w.subst(unmoved(select(y.val, fn)), 'FBMessage', rt, slots)
                if ty == DG:
                    g = strip_own(select(got, r.inner))
                    a = [z for z in g[2] if isinstance(z, tuple)][-1] if g[0] == 'res' and g[1] == DES else None
                    a = w.subst(a, 'FBMessage', rt, slots) if a else None
                    ok = a is not None and a[0] == 'res' and a[1] == SER and a[2][0] == ('init', ('deref', ('fld', ('fld', ('init', THIS), fn), r.inner)))
                else:
                    ok = got == ('fld', ('init', THIS), fn)
                c.ob(ok, 'every part of a message comes back as it was sent', df, '%s comes back as %s' % (fn, show(got)[:160]))
        c.ob(any(w.feasible(y, 'FBMessage', next(iter({t[2][0] for t in subterms(y.val) if t[0] == 'res' and t[1].startswith(SCH + 'FBMessage::')}), None), slots) for y in reads), 'a serialised message can be read back', df)
    c.ob(n > 0, 'a message can be serialised', sf)


# ------------------------------------------------------------------- C15
def pure(t, pre='json_'):
    """t with the results of calls of the C library compared by what they were asked, not when"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'res' and isinstance(t[1], str):
        a = tuple(pure(y, pre) if isinstance(y, tuple) else y for y in t[2])
        if t[1].startswith((pre, 'lh_')):
            return ('res', t[1], a)
        return ('res', t[1], a) + t[3:]
    if t[0] == 'lin':
        r = C(t[1])
        for y, k in t[2]:
            r = add(r, mul(C(k), pure(y, pre)))
        return r
    return tuple(pure(y, pre) if isinstance(y, tuple) else y for y in t)


JK = {0: 'null', 1: 'boolean', 2: 'double', 3: 'int', 4: 'object', 5: 'array', 6: 'string'}


def json_kinds(facts, j):
    """what json can be on a path with these facts"""
    left = set(JK)
    jt = ('res', 'json_object_get_type', (j,))
    for a, v in facts.items():
        a = pure(a)
        if a[0] == 'eq0':
            d = sub(a[1], jt)
            if d == ('c', d[1]) and is_const(d):
                k = -d[1]
            else:
                d = add(a[1], jt)
                if not is_const(d):
                    continue
                k = d[1]
            left = left & {k} if v else left - {k}
        elif a[0] == 'b' and a[1][0] == 'res' and a[1][1] == 'json_object_is_type' and a[1][2][0] == j and is_const(a[1][2][1]):
            k = a[1][2][1][1]
            left = left & {k} if v else left - {k}
        elif a == ('null', j) and v:
            left &= {0}
        elif a == ('null', j) and not v:
            left -= {0}
    return left


def json_read(c, r, f, x, ptr, j, reader):
    """ptr points to the datagram that says what json j says, as far as path x knows it"""
    kinds = json_kinds(x.facts, j)
    ptr = strip_own(unmoved(ptr))
    if not c.ob(ptr[0] == 'addr' and ptr[1][1] == () and ptr[1][0][0] in ('obj', 'new'), 'reading JSON gives a new datagram', f, show(ptr)[:120]):
        return
    st = r.state(x, root=ptr[1][0])
    kind = r.consistent(st)
    for k in sorted(kinds):
        n = JK[k]
        want = {'null': 'Empty', 'object': 'Dictionary', 'array': 'List'}.get(n, 'Value')
        what = 'a JSON %s is read as what it is' % n
        if not c.ob(kind == want, what, f, 'becomes %s' % (kind or 'something inconsistent')):
            continue
        if want == 'Value':
            v = strip_own(st[r.value])
            cls = v[1][0][1][0]
            tk = kind_of_type(cls[len(DATA) + 1:-1]) if cls.startswith(DATA + '<') else None
            m = [g['n'] for g in c.prog.fields(DATA)][0]
            got = pure(unmoved(path_get(x.store.get(v[1][0], ('?',)), (m,))))
            ok = tk == {'boolean': 'bool'}.get(n, n) and json_scalar(x, n, got, j)
            c.ob(ok, what, f, '%s %s' % (tk, show(got)[:140]))
        elif want == 'List':
            c.ob(json_list(c, r, x, st[r.list], j, reader), 'a JSON array is read element by element, in order', f, show(st[r.list])[:100])
        elif want == 'Dictionary':
            c.ob(json_dict(c, r, x, st[r.dict], j, reader), 'a JSON object is read member by member under its keys', f, show(st[r.dict])[:100])


def json_scalar(x, n, got, j):
    g = ('res', 'json_object_get_' + n, (j,))
    while got[0] == 'conv':
        if got[1] not in {'int': ('int', 'long', 'long long'), 'double': ('double', 'long double'), 'boolean': ('bool', 'int', 'long', 'unsigned int')}.get(n, ()):
            return False    # does not hold every value
        got = got[2]
    if n == 'boolean':
        if got in (TRUE, FALSE):
            for a, v in x.facts.items():
                a = pure(a)
                if a == ('b', g) and (got == TRUE) == v or a == ('eq0', g) and (got == TRUE) != v:
                    return True
            return False
        return got == g or got == ('not0', g)
    if n == 'int':
        return got in (g, ('res', 'json_object_get_int64', (j,)))
    if n == 'double':
        return got == g
    ln = ('res', 'json_object_get_string_len', (j,))
    return got[0] in ('app1', 'new') and contains(got, lambda t: t == g) and contains(got, lambda t: t == ln) and len(got) <= 3


def json_child(c, r, x, body, el, child, reader):
    """el is the datagram that says what the json of an element says"""
    el = strip_own(unmoved(el))
    if el[0] == 'res' and el[1] == reader:
        a = [pure(t) for t in el[2] if isinstance(t, tuple)]
        return child in a
    if el[0] != 'addr' or el[1][1] != () or el[1][0][0] not in ('obj', 'new'):
        return False
    root = el[1][0]
    made = [i for i, e in enumerate(body['events']) if e.k == 'new' and e.root == root]
    n = 0
    for i, e in enumerate(body['events']):
        if e.k == 'call' and any(isinstance(a, tuple) and contains(a, lambda t: t == root) for a in e.args or ()):
            if e.q != reader or child not in [pure(a) for a in e.args if isinstance(a, tuple)]:
                return False
            n += 1
    # the object is new in this pass and empty when the reader gets it
    if len(made) != 1 or n != 1:
        return False
    for e in body['events'][made[0]:]:
        if e.k == 'acc' and e.rw == 'w' and e.loc[0] == root:
            return False
    return True


def json_list(c, r, x, t, j, reader):
    k, got = seq_items(x, t)
    if k != 'each':
        return False
    if got.loop.kind != 'count' or ('res', 'json_object_array_length', (j,)) not in [pure(b) for b in bound_terms(got.loop)] + [pure(got.loop.d.get('bound') or C(0))]:
        return False
    child = ('res', 'json_object_array_get_idx', (j, ('ind', got.loop.id)))
    return all(key is None and el and json_child(c, r, x, b, el, child, reader) for b, key, el in got.items)


def json_dict(c, r, x, t, j, reader):
    fl = filled(x, t)
    if not fl or not fl.items or fl.start != EMPTY or fl.loop.exits:
        return False
    # the entry the loop is at: starts at the head, goes on to the next, until there is none
    for loc, start in fl.loop.pre.items():
        s = pure(start)
        if not (contains(s, lambda t: t == ('res', 'json_object_get_object', (j,)) ) or contains(s, lambda t: t == ('res', 'json_object_iter_begin', (j,)))):
            continue
        cur = ('lv', fl.loop.id, loc)
        head = s in (('res', 'lh_table_head', (('res', 'json_object_get_object', (j,)),)), field_of(('res', 'json_object_get_object', (j,)), 'head'))
        nxt = (('res', 'lh_entry_next', (cur,)), field_of(cur, 'next'))
        if not head or not all(pure(b['upd'].get(loc, ('?',))) in nxt for b in fl.loop.bodies):
            continue
        if [list(g) for g in fl.loop.guard] != [[(('null', cur), False)]]:
            continue
        keys = (('res', 'lh_entry_k', (cur,)), field_of(cur, 'k'))
        child = ('res', 'lh_entry_v', (cur,))
        alt = field_of(cur, 'v')

        def key_ok(kt):
            kt = pure(kt)
            return kt in keys or kt[0] == 'app1' and contains(kt, lambda t: t in keys) or kt[0] == 'conv' and kt[2] in keys
        if all(key is not None and key != 'other' and key_ok(key) and (json_child(c, r, x, b, el, child, reader) or json_child(c, r, x, b, el, alt, reader)) for b, key, el in fl.items):
            return True
    return False


def field_of(p, n):
    return ('fld', ('init', ('deref', p)), n)


def c15(c):
    r = Raw(c)
    if not r.distinct():
        return
    f = c.one(RAW + '::DeserializeFromJson', 1)
    reader = set()

    def walk(evs):
        for e in evs:
            if e.k == 'loop':
                for b in e.bodies:
                    for y in b['events']:
                        if y.k == 'call' and y.q.startswith('lp::') and any(isinstance(a, tuple) and contains(a, lambda t: t[0] == 'res' and str(t[1]).startswith(('json_object_array_get', 'lh_entry'))) for a in y.args or ()):
                            reader.add(y.q)
                    walk(b['events'])
    paths = c.run(f, DataPolicy())
    for x in paths:
        walk(x.events)
    if not c.ob(len(reader) == 1, 'the elements of JSON arrays and objects are read like JSON texts', f, str(sorted(reader))):
        return
    (rd,) = reader
    n = 0
    for x in paths:
        if not c.ob(x.kind == 'return', 'reading JSON does not fail', x.val.src if x.kind == 'throw' else f, outcome(x)):
            continue
        js = [e for e in x.events if e.k == 'call' and e.q in ('json_tokener_parse_ex', 'json_tokener_parse', 'json_tokener_parse_verbose')]
        if not c.ob(len(js) == 1, 'a JSON text is parsed once', f, str(len(js))):
            continue
        e = js[0]
        a = [unmoved(t) for t in e.args]
        txt = a[1] if e.q.endswith('_ex') else a[0]
        c.ob(txt == ('p', 0) or contains(txt, lambda t: t == ('p', 0)) and txt[0] != 'app', 'the text parsed is the text given', e, show(txt)[:80])
        if e.q.endswith('_ex'):
            c.ob(a[2] in (add(size(('p', 0)), C(1)), C(-1)) or sub(a[2], C(1))[:2] == ('res', 'strlen'), 'the parser sees the end of the text, so a number or literal at its end is complete', e, show(a[2]))
            d = [t for t in subterms(a[0]) if t[0] == 'res' and t[1] in ('json_tokener_new', 'json_tokener_new_ex')]
            c.ob(len(d) == 1, 'a JSON text is parsed from a fresh state', e, show(a[0])[:100])
        n += 1
        j = ('res', e.q, tuple(pure(t) for t in a))
        failed = False
        for t, v in x.facts.items():
            t = pure(t)
            if t[0] == 'eq0' and v is False and not contains(t, lambda y: y[0] == 'res' and y[1] == 'json_object_get_type') and contains(t, lambda y: y[0] == 'res' and str(y[1]).startswith('json_tokener')) and ('err' in repr(t)):
                failed = True
            if t == ('null', j) and v is True:
                failed = True
        if failed:
            p = strip_own(unmoved(x.val))
            ok = p[0] == 'addr' and p[1][1] == () and r.consistent(r.state(x, root=p[1][0])) == 'Empty'
            c.ob(ok, 'a text that is no JSON is read as an empty datagram', f, outcome(x)[:120])
        else:
            json_read(c, r, f, x, x.val, j, rd)
    c.ob(n > 0, 'JSON texts are parsed', f)
    for k in sorted(JK):
        c.ob(any(k in json_kinds(x.facts, j_of(x)) for x in paths if j_of(x)), 'every kind of JSON is read', f, JK[k])


def j_of(x):
    for e in x.events:
        if e.k == 'call' and e.q in ('json_tokener_parse_ex', 'json_tokener_parse', 'json_tokener_parse_verbose'):
            return ('res', e.q, tuple(pure(unmoved(t)) for t in e.args))
    return None


# ------------------------------------------------------------------- C16
VERIFY = re.compile(r'Verify\w*Buffer$|^VerifyBuffer$|^VerifySizePrefixedBuffer$')
ROOTS = ('GetRoot', 'GetMutableRoot')


def is_root_getter(q):
    n = base_name(q).split('<')[0]
    return q.startswith(('flatbuffers::', SCH)) and (n in ROOTS or re.match(r'Get(Mutable)?FB\w+$', n) is not None)


def fpure(t):
    """t with calls of accessors of the generated and flatbuffers classes compared by what they were asked"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'res' and isinstance(t[1], str):
        a = tuple(fpure(y) if isinstance(y, tuple) else y for y in t[2])
        return ('res', t[1], a) if t[1].startswith((SCH, 'flatbuffers::')) else ('res', t[1], a) + t[3:]
    if t[0] == 'lin':
        r = C(t[1])
        for y, k in t[2]:
            r = add(r, mul(C(k), fpure(y)))
        return r
    return tuple(fpure(y) if isinstance(y, tuple) else y for y in t)


def wire_accesses(evs):
    """(event) calls of accessors of tables, strings and vectors in received bytes, also in loops"""
    for e in evs:
        if e.k == 'loop':
            for b in e.bodies:
                for y in wire_accesses(b['events']):
                    yield y
        elif e.k == 'call' and e.recv is not None and isinstance(e.recv, tuple) and e.recv[0] == 'init' and e.recv[1][0] == 'deref':
            if e.q.startswith(SCH) and 'Builder' not in e.q or e.q.startswith(('flatbuffers::String', 'flatbuffers::Vector', 'flatbuffers::Table')):
                yield e


def less_than(facts, i, n):
    """the facts say i < n"""
    for a, v in facts:
        a = fpure(a)
        if a[0] != 'lt0':
            continue
        b = sub(i, a[1]) if v else add(add(a[1], i), C(1))     # i < b
        if b == n:
            return True
        for y in subterms(b):
            if y[0] == 'min' and n in (y[1], y[2]) and b == y:
                return True
    return False


def facts_of(x, e, extra=()):
    f = e.facts
    return list(f.items() if hasattr(f, 'items') else f) + list(extra)


def verified(facts, buf):
    """the facts say the bytes buf points to were verified, with their whole size -> (bool, why)"""
    why = 'nothing was verified'
    for a, v in facts:
        t = None
        if a[0] == 'b' and v is True:
            t = a[1]
        elif a[0] == 'eq0' and v is False:
            t = a[1]
        if not t or t[0] != 'res' or not VERIFY.search(base_name(t[1]).split('<')[0]):
            continue
        vs = [y for y in subterms(t) if y[0] == 'new' and y[1].startswith('flatbuffers::Verifier')]
        for y in vs:
            args = y[2]
            if args and unmoved(args[0]) == buf[0]:
                if unmoved(args[1]) == buf[1]:
                    return True, args
                why = 'verified with size %s' % show(args[1])
            else:
                why = 'other bytes were verified'
    return False, why


def c16(c):
    r = Raw(c)
    if not r.distinct():
        return
    rb = 'lp::data::RawBytes'
    cont = c.one(rb + '::GetContent', 0)
    sz = c.one(rb + '::GetSize', 0)
    one = lambda f: [x.val for x in c.run(f, DataPolicy()) if x.kind == 'return']
    cf, sf = one(cont), one(sz)
    if not c.ob(len(cf) == 1 and len(sf) == 1 and cf[0][0] == 'fld' and sf[0][0] == 'fld', 'a byte buffer gives its bytes and their number', cont):
        return
    buf = (('fld', ('init', ('deref', ('p', 0))), cf[0][2]), ('fld', ('init', ('deref', ('p', 0))), sf[0][2]))
    f = c.one(MSG + '::Deserialize', 1)
    df = c.one(RAW + '::DeserializeFromStructure', 1)
    n = 0
    fns = {}
    for x in c.run(f, DataPolicy()):
        rooted = None
        for e in x.events:
            if e.k == 'call' and is_root_getter(e.q):
                rooted = e
                c.ob(bool(e.args) and unmoved(e.args[0]) == buf[0], 'a message is read from the bytes that were given', e, show(e.args[0])[:100] if e.args else '')
        for e in wire_accesses(x.events):
            n += 1
            ok, why = verified(facts_of(x, e), buf)
            c.ob(ok, 'received bytes are verified, in their full size, before anything in them is used', e, why)
            if ok:
                depth = why[2] if len(why) > 2 else C(64)
                if depth[0] == 'rec' or not is_const(depth):
                    d = dict(depth[2]).get('max_depth') if depth[0] == 'rec' else None
                    depth = d if d else depth
                c.ob(is_const(depth) and depth[1] > JSON_DEPTH and depth[1] <= 100000, 'the depth of received datagrams is bounded, but not below the depth JSON texts may have', e, show(depth))
            wire_deref(c, x, e)
        if x.kind == 'throw':
            c.ob(raised(x, 'lp::exceptions::InvalidOperationException'), 'bytes that are no message are refused with the invalid-operation error', x.val.src, outcome(x))
            continue
        ok, why = verified(list(x.facts.items()), buf)
        c.ob(ok, 'a message is only given for verified bytes', f, str(why) if not ok else '')
        c.ob(rooted is not None, 'a message is read from the bytes that were given', f)
        for fn in [g['n'] for g in c.prog.fields(MSG) if g['t'] == DG]:
            p = strip_own(unmoved(select(select(x.val, fn), r.inner)))
            if p[0] == 'addr':
                c.ob(r.consistent(r.state(x, root=p[1][0])) is not None, 'every verified message gives a well-formed datagram', f, str(sorted((k, show(v)[:60]) for k, v in r.state(x, root=p[1][0]).items())))
            else:
                c.ob(p[0] == 'res' and p[1] == df['q'], 'every verified message gives a well-formed datagram', f, show(p)[:100])
    for x in c.run(df, DataPolicy()):
        if not c.ob(x.kind == 'return', 'reading a verified datagram does not fail', x.val.src if x.kind == 'throw' else df, outcome(x)):
            continue
        p = strip_own(unmoved(x.val))
        c.ob(p[0] == 'addr' and r.consistent(r.state(x, root=p[1][0])) is not None, 'every verified message gives a well-formed datagram', df, outcome(x)[:120])
        for e in wire_accesses(x.events):
            n += 1
            wire_deref(c, x, e)
        nested_calls(c, df, x.events)
    c.ob(n > 0, 'received bytes are read', f)
    # nothing else reads tables out of bytes
    for g in c.prog.funcs.values():
        if g['q'].startswith('lp::') and not g['q'].startswith(SCH) and any(k.get('k') == 'call' and k.get('f') and is_root_getter(k['f']['q']) for k in walk(g.get('body'))):
            c.ob(covers_fn(c, g), 'received bytes are verified, in their full size, before anything in them is used', g, 'reads a table on its own')


def covers_fn(c, g):
    return g['id'] in c.funcs or g['q'] in c.funcs


JSON_DEPTH = 1000


def wire_deref(c, x, e):
    p = fpure(e.recv[1][1])
    facts = [(fpure(a), v) for a, v in facts_of(x, e)]
    if p[0] == 'p' or p[0] == 'res' and (is_root_getter(p[1])):
        pass
    elif p[0] == 'res' and p[1].startswith('flatbuffers::') and base_name(p[1]) in ('operator[]', 'Get', 'GetAsString') or p[0] == 'at':
        pass    # an element: never absent once verified
    else:
        c.ob((('null', p), False) in facts, 'what may be absent in received bytes is only used when it is there', e, '%s may be absent' % show(p)[:120])
    if base_name(e.q) in ('operator[]', 'Get', 'GetAsString') and e.q.startswith('flatbuffers::Vector') and e.args:
        vec = ('init', ('deref', p))
        i = fpure(unmoved(e.args[0]))
        ok = any(less_than(facts_of(x, e), i, s) for s in (('size', vec), ('res', e.q.rsplit('::', 1)[0] + '::size', (vec,)), ('res', e.q.rsplit('::', 1)[0] + '::Length', (vec,))))
        c.ob(ok, 'elements of received bytes are only used up to their number', e, 'index %s' % show(i))


def nested_calls(c, df, evs):
    for e in evs:
        if e.k == 'loop':
            for b in e.bodies:
                nested_calls(c, df, b['events'])
        elif e.k == 'call' and e.q == df['q'] and e.args:
            p = fpure(unmoved(e.args[0]))
            el = p[0] == 'res' and p[1].startswith('flatbuffers::') and base_name(p[1]) in ('operator[]', 'Get') or p[0] in ('at', 'velem') or p[0] == 'init' and p[1][0] in ('el', 'at')
            c.ob(el or (('null', p), False) in [(fpure(a), v) for a, v in facts_of(None, e)], 'what may be absent in received bytes is only used when it is there', e, show(p)[:120])
