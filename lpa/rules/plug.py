"""Rules about plugins: which libraries become plugins, and how their instances live and end."""
from ..prog import walk, base_name
from .data import *
from .data2 import calls_in

PM = 'lp::PluginManager'
PT = 'lp::PluginTemplate'
PI = 'lp::PluginInstance'
FSYS = 'lp::Filesystem::'
FS_FNS = tuple(FSYS + n for n in ('GetDirectoryContents', 'PathExists', 'IsFile', 'IsDirectory', 'GetFileExtension', 'GetFilename', 'GetBaseDirectory', 'CombinePaths', 'GetPathOfRunningExecutable',
                                  'GetWorkingDirectory'))
PREFIX, EXT = 'libplugin_', 'so'


class PlugPolicy(Policy):
    opaque = ('lp::log::', 'lp::messages::', 'lp::bus::') + FS_FNS


class HostPolicy(Policy):
    """the template's view: what an instance does is its own business"""
    opaque = ('lp::log::', 'lp::messages::', 'lp::bus::', PI + '::') + FS_FNS


def literal(c, t):
    """the text a term stands for: a constant, or a global that is initialised with one and never written"""
    t = unmoved(t)
    if is_const(t):
        return t[1]
    if t[0] == 'init' and t[1][0] == 'glob':
        for k, g in c.prog.globals.items():
            if k.split('@')[0] == t[1][1]:
                ss = [n for n in walk(g.get('init')) if n.get('k') == 'str']
                if len(ss) == 1:
                    return ss[0]['v']
    return None


def reach(evs):
    """all events with those of loop bodies"""
    for e in evs:
        yield e
        if e.k == 'loop':
            for b in e.bodies:
                yield from reach(b['events'])


def is_call(t, q):
    return isinstance(t, tuple) and t and t[0] == 'res' and t[1] == q


def rargs(t):
    a = t[2]
    return tuple(y for y in (a[1:] if a and a[0] is None else a))


def fact(facts, *ts):
    for t in ts:
        if t in facts:
            return facts[t]
    return None


def empty_fact(facts, t):
    for a, v in facts.items():
        if a == ('empty', t) or a in (('eq', t, C('')), ('eq', C(''), t), ('eq0', size(t))):
            return v
    return None


# ------------------------------------------------------------------- C20
def c20(c):
    add_f = c.one(PM + '::AddTemplateSearchPath', 1)
    paths = None
    for x in c.run(add_f, PlugPolicy()):
        ws = [e for e in x.events if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS]
        ok = x.kind == 'return' and len({e.loc for e in ws}) == 1
        if ok:
            paths = ws[0].loc
            old = path_get(('init', THIS), paths[1])
            ok = unmoved(x.get(paths)) == ('app', old, ('p', 0))
        c.ob(ok, 'a new search path comes after those there are', add_f)
    if paths is None:
        return
    P = path_get(('init', THIS), paths[1])
    f = c.one(PM + '::LoadTemplates', 0)
    n = 0
    for x in c.run(f, PlugPolicy()):
        c.ob(x.kind == 'return', 'looking for plugins does not fail', x.val.src if x.kind == 'throw' else f, outcome(x))
        every = 'every file of every search path is looked at, in order'
        ls = [e for e in loops(x.events) if any(y.k == 'call' and y.q in ('dlopen', FSYS + 'GetDirectoryContents', 'opendir') for y in reach([e]))]
        if not c.ob(len(ls) == 1 and visits_all(ls[0]) and unmoved(ls[0].cont or NULL) == P, every, ls[0] if ls else f, 'search paths'):
            continue
        sp = ('at', P, ('ind', ls[0].id))
        for bd in ls[0].bodies:
            c.ob(bd['kind'] in ('next', 'n', 'c', 'continue'), every, ls[0], 'a search path ends the search')
            inner = [e for e in loops(bd['events']) if e.cont is not None and is_call(unmoved(e.cont), FSYS + 'GetDirectoryContents')]
            if not c.ob(len(inner) == 1 and visits_all(inner[0]), every, ls[0], 'files of a search path'):
                continue
            l = inner[0]
            a = rargs(unmoved(l.cont))
            c.ob(a[0] == sp and is_const(a[1]) and a[1][1] & 1 == 1, every, l, 'the files of %s' % show(a[0]))
            name = ('at', l.cont, ('ind', l.id))
            for b in l.bodies:
                n += 1
                c.ob(b['kind'] in ('next', 'n', 'c', 'continue'), every, l, 'a file ends the search')
                gate(c, b, sp, name, l)
    c.ob(n > 0, 'plugin libraries are loaded', f)
    exports(c)


def names_file(t, sp, name):
    t = unmoved(t)
    return is_call(t, FSYS + 'CombinePaths') and rargs(t) == (sp, name) or t == cat(cat(sp, C('/')), name)


def name_facts(c, facts, sp, name):
    """what a path knows about the file: (exists, extension fits, prefix fits)"""
    ex = ext = pre = None
    this_file = lambda t: t == name or names_file(t, sp, name)
    whole = lambda t: t == name or is_call(t, FSYS + 'GetFilename') and this_file(rargs(t)[0])
    for t, v in facts.items():
        if t[0] == 'b' and t[1][0] == 'res' and t[1][1] in (FSYS + 'PathExists', FSYS + 'IsFile') and this_file(rargs(t[1])[0]):
            ex = v
        elif t[0] == 'eq':
            for a, b in ((t[1], t[2]), (t[2], t[1])):
                if literal(c, a) == EXT and is_call(b, FSYS + 'GetFileExtension') and this_file(rargs(b)[0]):
                    ext = v
        elif t[0] == 'prefix' and literal(c, t[1]) == PREFIX and whole(t[2]):
            pre = v
    return ex, ext, pre


def gate(c, b, sp, name, l):
    facts = dict(b['facts'])
    evs = [e for e in b['events'] if e.k in ('call', 'fcall', 'acc', 'deref', 'loop', 'lambda')]
    calls = [e for e in evs if e.k == 'call']
    opens = [e for e in calls if e.q in ('dlopen', 'dlmopen')]
    mine = {k: v for k, v in b['upd'].items() if k[0] == THIS and v[0] != 'lv' and v != path_get(('init', THIS), k[1])}
    ex, ext, pre = name_facts(c, facts, sp, name)
    only = 'only files named %s*.%s are opened, all of them' % (PREFIX, EXT)
    if not opens:
        c.ob(False in (ex, ext, pre), only, l, 'a file is passed over when %s' % '; '.join('%s%s' % ('' if v else 'not ', show(t)[:60]) for t, v in facts.items()))
        c.ob(not mine, 'a file that is no plugin changes nothing', l)
        return
    o = opens[0]
    c.ob(len(opens) == 1 and names_file(o.args[0], sp, name), only, o, show(o.args[0])[:100])
    how = unmoved(o.args[-1])
    c.ob(is_const(how) and how[1] & 3 and not how[1] & 4, 'a library is really opened', o, 'flags %s' % show(how))
    c.ob(ext is True and pre is True, only, o, 'opened without looking at its name')
    H = o.res
    hn = facts.get(('null', H))
    closes = [i for i, e in enumerate(evs) if e.k == 'call' and e.q == 'dlclose']
    syms = [(i, e) for i, e in enumerate(evs) if e.k == 'call' and e.q in ('dlsym', 'dlvsym')]
    fcs = [(i, e) for i, e in enumerate(evs) if e.k == 'fcall']
    once = 'a library that becomes no plugin is closed once'
    none = 'a library that cannot be used changes nothing'
    if hn is not False:
        c.ob(hn is True and not closes and not syms and not fcs and not mine, 'a library that does not open is not used', o)
        return
    for i, e in syms:
        c.ob(unmoved(e.args[0]) == H, 'functions are looked up in the library that was opened', e)
    found = {}
    for i, e in syms:
        found.setdefault(literal(c, e.args[1]), e.res)
    for i, e in fcs:
        fv = unmoved(e.fv)
        c.ob(fv in found.values() and facts.get(('null', fv)) is False, 'a function of a library is only called when it was found', e)
    for i in closes:
        c.ob(unmoved(evs[i].args[0]) == H, once, evs[i], 'closes %s' % show(evs[i].args[0])[:60])
        late = [e for j, e in syms + fcs if j > i]
        c.ob(not late, 'a closed library is not used', late[0] if late else evs[i])
    info_fn, make_fn = found.get('CreateInfo'), found.get('CreateInstance')
    info = [e.res for _, e in fcs if unmoved(e.fv) == info_fn and e.res is not None]
    I = info[0] if info else None
    for e in evs:
        if e.k == 'deref' and I is not None and unmoved(e.d.get('ptr', NULL)) == I:
            c.ob(facts.get(('null', I)) is False, 'the description of a plugin is only read when there is one', e)
    if mine:
        reg = list(mine.items())
        (loc, t) = reg[0]
        ok = len(reg) == 1 and t[0] == 'put' and t[1][0] == 'lv'
        if not c.ob(ok, 'a plugin is registered once', l, show(t)[:100]):
            return
        key, rec, cont = unmoved(t[2]), unmoved(t[3]), t[1]
        c.ob(I is not None and contains(key, lambda y: y == ('deref', I)), 'a plugin is registered under the identifier it gives', l, show(key)[:80])
        known = facts.get(('in', key, cont))
        conds = {'it describes itself': info_fn is not None and facts.get(('null', info_fn)) is False and I is not None and facts.get(('null', I)) is False,
                 'it has an identifier': empty_fact(facts, key) is False,
                 'the identifier is not in use': known is False,
                 'it can create instances': make_fn is not None and facts.get(('null', make_fn)) is False}
        for k, v in conds.items():
            c.ob(v, 'a library is only taken as plugin when ' + k, l)
        c.ob(not closes, 'the library of a plugin stays open', evs[closes[0]] if closes else l)
        vals = list(subterms(rec))
        c.ob(H in vals, 'a plugin is registered with its library', l)
        objs = {y[1][0] for y in vals if y[0] == 'addr' and y[1][0][0] == 'obj' and y[1][0][1][0] == PT}
        lam = [y for e in b['events'] if e.k == 'acc' and e.rw in ('w', 'i') and e.loc[0] in objs and e.val is not None for y in subterms(e.val) if y[0] == 'lambda']
        ident = [e for e in b['events'] if e.k == 'acc' and e.rw in ('w', 'i') and e.loc[0] in objs and e.val is not None and contains(e.val, lambda y: y == key)]
        c.ob(len(objs) == 1 and bool(ident), 'a plugin is registered under the identifier it gives', l, 'the template does not know it')
        made = make_fn is not None and (any(creates(c, y, make_fn) for y in lam) or any(e.k == 'acc' and e.loc[0] in objs and e.val is not None and contains(e.val, lambda z: z == make_fn) and not contains(e.val, lambda z: z[0] == 'lambda')
                                        for e in b['events']))
        c.ob(made, 'instances of a plugin are created by its own library', l)
        return
    why = [info_fn is not None and facts.get(('null', info_fn)) is True, I is not None and facts.get(('null', I)) is True, make_fn is not None and facts.get(('null', make_fn)) is True]
    for t, v in facts.items():
        if I is not None and contains(t, lambda y: y == ('deref', I)):
            if t[0] == 'empty' and v or t[0] == 'in' and v or t[0] == 'eq' and C('') in t and v or t[0] == 'eq0' and v:
                why.append(True)
    c.ob(any(why), 'a library that meets all conditions becomes a plugin', o, 'not taken although %s' % '; '.join('%s%s' % ('' if v else 'not ', show(t)[:50]) for t, v in list(facts.items())[-3:]))
    c.ob(len(closes) == 1, once, o, 'closed %d times' % len(closes))


def creates(c, lam, make_fn):
    """the function object calls make_fn with its argument and gives what that returns"""
    f = c.prog.funcs.get(lam[1])
    if not f or len(lam) < 3:
        return False
    ps = c.run(f, HostPolicy(), caps=lam[2])
    for x in ps:
        fc = [e for e in reach(x.events) if e.k == 'fcall']
        if x.kind != 'return' or len(fc) != 1 or unmoved(fc[0].fv) != make_fn or [unmoved(a) for a in fc[0].args] != [('p', 0)]:
            return False
        v = strip_own(unmoved(x.val))
        if v != fc[0].res:
            return False
    return bool(ps)


def exports(c):
    """the plugins of this repository offer the functions that are looked up"""
    n = {}
    for f in c.prog.funcs.values():
        if '/src/plugins/' in f['file'] and base_name(f['q']) in ('CreateInfo', 'CreateInstance'):
            c.ob(not f['id'].startswith('_Z'), 'a plugin exports its functions by their plain names', f)
            n.setdefault(f['file'], set()).add(base_name(f['q']))
            for x in c.run(f, PlugPolicy()):
                v = strip_own(unmoved(x.val)) if x.kind == 'return' and isinstance(x.val, tuple) else NULL
                c.ob(v[0] == 'addr' and v[1][0][0] == 'obj' and v[1][1] == (), 'a plugin gives its description and its instances', f, outcome(x)[:80])
                if base_name(f['q']) == 'CreateInfo' and v[0] == 'addr':
                    t = path_get(x.store.get(v[1][0], ('?',)), ('mIdentifier',))
                    c.ob(is_const(t) and t[1] != '', 'a plugin names itself', f, show(t)[:60])
    for k, v in n.items():
        c.ob(v == {'CreateInfo', 'CreateInstance'}, 'a plugin offers its description and its instances', (k, 1, '?'), str(sorted(v)))
    c.ob(len(n) >= 2, 'the plugins offer the functions that are looked up')


# ------------------------------------------------------------------- C21
class LifePolicy(Policy):
    """what an instance does when it is asked to start, stop, ... is its own business"""
    opaque = ('lp::log::', 'lp::messages::', 'lp::bus::') + FS_FNS + tuple(PI + '::' + n for n in ('Start', 'Stop', 'Initialize', 'Deinitialize', 'Run'))


class OwnPolicy(Policy):
    opaque = ('lp::log::', 'lp::messages::', 'lp::bus::')


def holds(t, loc):
    """t is what was in loc before"""
    t = unmoved(t)
    return t == path_get(('init', loc[0]), loc[1]) or t[0] == 'lv' and t[-1] == loc


def each(evs, loc):
    """the loops over the container in loc"""
    return [e for e in loops(evs) if e.cont is not None and holds(e.cont, loc)]


def elem_ptr(loc_term, l):
    """the pointer kept for the current element of loop l"""
    return ('at', l.cont, ('key', l.cont, ('ind', l.id)))


def ended(c, evs, inst, site, who):
    """evs stop, deinitialize and forget every instance of the map inst; gives the index after the last event that does"""
    seq, skip, last = [], 0, -1
    whole = '%s: every instance is stopped and deinitialized' % who
    n = 0
    for i, e in enumerate(evs):
        if e.k == 'call' and e.q in (PI + '::Stop', PI + '::Deinitialize'):
            c.ob(False, whole, e, 'of one instance')
        if e.k != 'loop':
            continue
        mine = [y for y in reach([e]) if y.k == 'call' and y.q in (PI + '::Stop', PI + '::Deinitialize')]
        if not mine:
            continue
        if not (e.cont is not None and holds(e.cont, inst)):
            return None if n == 0 and any(y.k == 'loop' for b in e.bodies for y in b['events']) else c.ob(False, whole, e, 'over %s' % (show(e.cont)[:80] if e.cont is not None else '?')) or last
        n += 1
        last = i
        c.ob(visits_all(e), whole, e, 'some are left out')
        ptr = elem_ptr(inst, e)
        kinds = []
        for b in e.bodies:
            c.ob(b['kind'] in ('next', 'n', 'c', 'continue'), whole, e, 'ends early')
            facts = dict(b['facts'])
            calls = [y for y in reach(b['events']) if y.k == 'call' and y.q in (PI + '::Stop', PI + '::Deinitialize')]
            null = facts.get(('null', ptr))
            if null is True:
                c.ob(not calls, '%s: an instance that was not created is skipped' % who, calls[0] if calls else e)
                continue
            c.ob(null is False or not calls, '%s: an instance that was not created is skipped' % who, calls[0] if calls else e)
            for y in calls:
                c.ob(y.rloc == (('deref', ptr), ()), whole, y, 'calls %s' % show(y.recv)[:80])
            kinds.append(tuple(base_name(y.q) for y in calls))
        if c.ob(len(set(kinds)) == 1, whole, e, str(kinds)):
            seq += kinds[0]
    if n == 0:
        c.ob(False, whole, site, 'none is')
        return last
    c.ob(seq.count('Deinitialize') == 1 and 'Stop' in seq[:seq.index('Deinitialize')], '%s: an instance is stopped before it is deinitialized, once' % who, site, ', '.join(seq))
    return last


def forgets(evs, inst):
    """index of the event that empties the map, or None"""
    r = [i for i, e in enumerate(evs) if e.k == 'acc' and e.rw == 'w' and e.loc == inst and e.val is not None and unmoved(e.val) in (('empty',), ('zero', 'std::map'))]
    return r[-1] if r else None


def removers(c):
    """the operations of a bus that let go of the child of a given name, and do nothing else to the children"""
    maps = [f['n'] for f in c.prog.classes[BUS]['fields'] if 'std::map<' in f['t'] and BUS in f['t']]
    if len(maps) != 1:
        raise AnalysisError('%d maps of child buses' % len(maps))
    loc, old = (THIS, (maps[0],)), path_get(('init', THIS), (maps[0],))
    r = set()
    for f in c.prog.methods.get(BUS, []):
        if len(f['params']) != 1 or 'basic_string' not in f['pt'][0] or f.get('isctor') or f.get('acc') != 0:
            continue
        xs = c.run(f, OwnPolicy())
        if xs and all(x.kind == 'return' for x in xs) and all(
                unmoved(x.get(loc)) == ('del', old, ('p', 0)) or x.facts.get(('in', ('p', 0), old)) is False and unmoved(x.get(loc)) == old for x in xs) and any(
                unmoved(x.get(loc)) != old for x in xs):
            r.add(f['q'])
    c.ob(bool(r), 'a bus can let go of a child bus')
    return r


def known(c, name):
    """a template remembers from which bus it got the bus of an instance"""
    f = c.one(PT + '::Instantiate', 2)
    inst = path_get(('init', THIS), (name,))
    txt = 'a template knows whose child the bus of an instance is'
    for x in c.run(f, LifePolicy()):
        made = [e for e in x.events if e.k == 'call' and e.q == BUS + '::CreateChildBus']
        for e in made:
            k = unmoved(e.args[0])
            kept = [y for y in x.events if y.k == 'acc' and y.rw == 'w' and y.loc[0] == THIS and y.loc[1] and y.val is not None and strip_own(unmoved(y.val)) == ('p', 1)
                    and any(contains(z, lambda w: w == k) for z in y.loc[1] if isinstance(z, tuple))]
            c.ob(bool(kept), txt, e)


def parted(c, evs, name, rem, site, who):
    """evs take the bus of every instance off the bus it belongs to"""
    txt = who + ': the bus of every instance is taken off the bus it belongs to, so that nothing of the library is left when it is closed'
    done = 0
    for e in loops(evs):
        mine = [y for y in reach([e]) if y.k == 'call' and y.q in rem]
        if not mine:
            continue
        t = unmoved(e.cont) if e.cont is not None else NULL
        if not c.ob(t[0] in ('fld', 'lv') and visits_all(e), txt, e, 'over %s' % show(t)[:60]):
            continue
        key = ('key', e.cont, ('ind', e.id))
        for b in e.bodies:
            c.ob(b['kind'] in ('next', 'n', 'c', 'continue'), txt, e, 'ends early')
            calls = [y for y in b['events'] if y.k == 'call' and y.q in rem]
            facts = dict(b['facts'])
            if not calls and any(v is True and k[0] == 'null' for k, v in facts.items()):
                continue
            if not c.ob(len(calls) == 1, txt, e, 'not in every round'):
                continue
            y = calls[0]
            p = y.rloc[0] if y.rloc else NULL
            c.ob(unmoved(y.args[0]) == key and p[0] == 'deref' and unmoved(p[1])[0] == 'at' and unmoved(p[1])[2] == key, txt, y, show(y.recv)[:80])
        done += 1
    c.ob(done == 1, txt, site, 'not done' if not done else '')


def instances_field(c):
    r = [f['n'] for f in c.prog.classes[PT]['fields'] if 'std::map<' in f['t'] and PI in f['t']]
    if len(r) != 1:
        raise AnalysisError('%d maps of the instances of a template' % len(r))
    return r[0]


def c21(c):
    name = instances_field(c)
    inst = (THIS, (name,))
    rem = removers(c)
    known(c, name)
    # a template
    for q, who in ((PT + '::Unload', 'unloading a template'), (PT + '::~PluginTemplate', 'destroying a template')):
        f = c.one(q, 0)
        for x in c.run(f, LifePolicy()):
            last = ended(c, x.events, inst, f, who)
            g = forgets(x.events, inst)
            c.ob(x.kind == 'return' and g is not None and last is not None and g > last, who + ': its instances are released afterwards', f)
            parted(c, x.events, name, rem, f, who)
    # the manager
    for q, who in ((PM + '::UnloadTemplates', 'unloading the plugins'), (PM + '::~PluginManager', 'destroying the plugin manager')):
        f = c.one(q, 0)
        tmpl = None
        for x in c.run(f, LifePolicy()):
            tmpl = manager(c, x, f, who, name) or tmpl
        c.ob(tmpl is not None, who + ': every library is closed', f)
    worker(c)
    hosts(c)
    plugins(c)


def manager(c, x, f, who, name):
    lib = who + ': every library is closed once, after its plugin was unloaded'
    outer = [e for e in loops(x.events) if any(y.k == 'call' and (y.q == 'dlclose' or y.q in (PI + '::Stop', PI + '::Deinitialize')) for y in reach([e]))]
    for e in straight(x.events):
        if e.k == 'call' and e.q == 'dlclose':
            c.ob(False, lib, e)
    if not outer:
        ok = [t for t, v in x.facts.items() if (t[0] == 'empty' and v and t[1][0] == 'fld' or t[0] == 'eq0' and v and t[1][0] == 'size')]
        c.ob(bool(ok) and x.kind == 'return', lib, f, 'not although there are some')
        return None
    loc = None
    stage = []
    for e in outer:
        t = unmoved(e.cont) if e.cont is not None else NULL
        if t[0] == 'fld' and t[1] == ('init', THIS):
            l = (THIS, (t[2],))
        else:
            c.ob(False, lib, e, 'over %s' % show(t)[:80])
            continue
        c.ob(loc in (None, l) and visits_all(e), lib, e, 'some are left out')
        loc = l
        ptr = elem_ptr(l, e)
        kinds = set()
        for b in e.bodies:
            c.ob(b['kind'] in ('next', 'n', 'c', 'continue'), lib, e, 'ends early')
            evs = b['events']
            closes = [i for i, y in enumerate(evs) if y.k == 'call' and y.q == 'dlclose']
            for i in closes:
                a = unmoved(evs[i].args[0])
                c.ob(a[0] == 'fld' and a[1] == ptr, lib, evs[i], 'closes %s' % show(a)[:80])
            c.ob(not any(y.k == 'call' and y.q == 'dlclose' for z in evs if z.k == 'loop' for y in reach([z])), lib, e)
            k = ()
            ends = [i for i, y in enumerate(evs) if y.k == 'loop' and any(w.k == 'call' and w.q == PI + '::Deinitialize' for w in reach([y]))]
            if ends:
                # the template whose instances these are
                root = None
                for y in evs:
                    if y.k == 'loop' and y.cont is not None:
                        for z in subterms(y.cont):
                            if z[0] == 'deref' and contains(z, lambda w: w == ptr):
                                root = z
                        if unmoved(y.cont)[0] == 'lv':
                            root = unmoved(y.cont)[-1][0]
                if root is None:
                    for y in evs:
                        if y.k == 'acc' and y.loc[0][0] == 'deref' and contains(y.loc[0], lambda w: w == ptr):
                            root = y.loc[0]
                if not c.ob(root is not None and contains(root, lambda w: w == ptr), lib, e, 'not the instances of its template'):
                    continue
                inst = (root, (name,))
                last = ended(c, evs, inst, e, who)
                g = forgets(evs, inst)
                c.ob(g is not None and last is not None and g > last, who + ': its instances are released afterwards', e)
                if g is not None:
                    k += ('end',)
                    for i in closes:
                        c.ob(g < i and last < i, lib, evs[i], 'closed while there are instances')
            if closes:
                k += ('close',) * len(closes)
            kinds.add(k)
        if c.ob(len(kinds) == 1, lib, e, str(sorted(kinds))):
            stage += kinds.pop()
    c.ob(stage == ['end', 'close'], lib, f, ', '.join(stage))
    if loc is not None:
        fin = unmoved(x.get(loc))
        c.ob(x.kind == 'return' and (fin == ('empty',)), who + ': the plugins are forgotten', f, show(fin)[:60])
    return loc


def runs_worker(c, t):
    """the thread value t runs Run of this object"""
    t = unmoved(t)
    if t[0] != 'thread':
        return False
    subs = list(subterms(t))
    fn = [y for y in subs if y[0] == 'func']
    if fn:
        return len(fn) == 1 and fn[0][2] == PI + '::Run' and any(y == ('addr', (THIS, ())) for y in subs)
    lam = [y for y in subs if y[0] == 'lambda']
    if len(lam) != 1 or lam[0][1] not in c.prog.funcs:
        return False
    ps = c.run(c.prog.funcs[lam[0][1]], LifePolicy(), caps=lam[0][2])
    return bool(ps) and all(x.kind == 'return' and [y.rloc for y in reach(x.events) if y.k == 'call' and y.q == PI + '::Run'] == [(THIS, ())] for x in ps)


def worker(c):
    """Start, Stop and the destructor of an instance"""
    flag = thr = None
    f = c.one(PI + '::Start', 0)
    run = 'starting an instance lets its worker run'
    for x in c.run(f, OwnPolicy()):
        ts = [i for i, e in enumerate(x.events) if e.k == 'thread' and e.args]
        if not c.ob(x.kind == 'return' and len(ts) == 1, run, f, '%d threads' % len(ts)):
            continue
        keep = [(i, e) for i, e in enumerate(x.events) if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS and e.val is not None and unmoved(e.val)[0] == 'thread']
        if c.ob(bool(keep) and runs_worker(c, x.get(keep[-1][1].loc)), run, f, 'the thread does not run it or is not kept'):
            thr = keep[-1][1].loc
        on = [(i, e) for i, e in enumerate(x.events) if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS and e.val is not None and unmoved(e.val)[:2] == ('c', True)]
        c.ob(bool(on) and on[-1][0] < ts[0], run, x.events[ts[0]], 'the worker may start before its run flag is set')
        if on:
            flag = on[-1][1].loc
            c.ob(unmoved(x.get(flag))[:2] == ('c', True), run, f)
    if flag is None or thr is None:
        c.ob(False, 'an instance can be stopped', f)
        return
    for q, who in ((PI + '::Stop', 'stopping an instance'), (PI + '::~PluginInstance', 'destroying an instance')):
        g = c.one(q, 0)
        for x in c.run(g, OwnPolicy()):
            off = [i for i, e in enumerate(x.events) if e.k == 'acc' and e.rw == 'w' and e.loc == flag]
            joins = [i for i, e in enumerate(x.events) if e.k == 'call' and e.q == 'std::thread::join' and e.rloc == thr]
            c.ob(x.kind == 'return' and unmoved(x.get(flag))[:2] == ('c', False), who + ' clears its run flag', g)
            j = [v for t, v in x.facts.items() if t == ('joinable', path_get(('init', THIS), thr[1]))]
            c.ob(len(joins) == (1 if j == [True] else 0) and len(j) == 1, who + ' waits for its worker if there is one', g, 'joined %d times' % len(joins))
            c.ob(all(o < i for i in joins for o in off[:1]) and all(o < i for i in joins for o in off), who + ' clears the run flag before it waits', g)
            c.ob(not any(e.k == 'call' and e.q == 'std::thread::detach' for e in reach(x.events)), who + ' waits for its worker if there is one', g, 'detached')
    # the workers
    n = 0
    for f in c.prog.funcs.values():
        if base_name(f['q']) != 'Run' or not f.get('virt') or PI not in c.prog.bases(f.get('cls', '')) or f.get('cls') == PI:
            continue
        n += 1
        end = 'a worker looks at its run flag in every round and ends when it is cleared'
        for x in c.run(f, OwnPolicy()):
            for e in loops(x.events):
                if bounded(e):
                    continue
                for b in e.bodies:
                    if b['kind'] in ('next', 'n', 'c', 'continue'):
                        rd = [y for y in b['events'] if y.k == 'acc' and y.rw == 'r' and y.loc == flag]
                        seen = [t for t, v in b['facts'] if v and t[0] == 'b' and t[1][0] == 'ard' and t[1][-1] == flag]
                        c.ob(bool(rd) and bool(seen), end, e)
            c.ob(x.kind == 'return', end, f, outcome(x)[:80])
    c.ob(n >= 2, 'the workers of the plugins are found', None, str(n))


def bounded(l):
    return l.kind == 'foreach' or l.cont is not None and l.full


def hosts(c):
    """what LampPost does with the instances it has made"""
    f = c.one('lp::LampPost::Start', 0)
    order = 'a new instance is initialized and then started, once'
    n = [0]

    def look(evs, facts):
        made = {}
        for e in evs:
            if e.k == 'loop':
                for b in e.bodies:
                    look(b['events'], dict(b['facts']))
            elif e.k == 'call' and e.q == PM + '::InstantiateTemplate':
                made[e.res] = []
            elif e.k == 'call' and e.q in (PI + '::Initialize', PI + '::Start'):
                r = e.rloc[0][1] if e.rloc and e.rloc[0][0] == 'deref' and e.rloc[1] == () else None
                if c.ob(r in made, order, e, 'on another object'):
                    c.ob(facts.get(('null', r)) is False, 'an instance that was not created is not used', e)
                    made[r].append(base_name(e.q))
        for r, s in made.items():
            n[0] += 1
            want = [] if facts.get(('null', r)) is True else ['Initialize', 'Start']
            c.ob(s == want and ('null', r) in facts, order, f, ', '.join(s))

    for x in c.run(f, StartPolicy()):
        look(x.events, x.facts)
    c.ob(n[0] > 0, order, f, 'no instance is made')


class StartPolicy(Policy):
    strict = True
    opaque = ('lp::log::', 'lp::messages::', 'lp::bus::', PI + '::') + FS_FNS + tuple(PM + '::' + n for n in ('InstantiateTemplate', 'SetBus', 'LoadTemplates', 'UnloadTemplates', 'AddTemplateSearchPath'))


def plugins(c):
    """what a plugin has created on the bus it removes when it is deinitialized"""
    made_by = {'CreateSubscriber': ('DeleteSubscriber',), 'CreatePublisher': ('DeletePublisher',), 'CreateActionProvider': ('Reset',), 'CreateActionConsumer': ('Reset',)}
    n = 0
    for cls in sorted(k for k in c.prog.classes if PI in c.prog.bases(k) and k != PI):
        ini = c.prog.fn(cls + '::Initialize', 0)
        de = c.prog.fn(cls + '::Deinitialize', 0)
        if not ini or not de:
            continue
        made = {}
        for x in c.run(ini[0], InitPolicy()):
            for e in x.events:
                if e.k == 'call' and base_name(e.q) in made_by and e.q.startswith('lp::bus::'):
                    where = [y.loc for y in x.events if y.k == 'acc' and y.rw in ('w', 'i') and y.val is not None and strip_own(unmoved(y.val)) == e.res and y.loc[0] == THIS]
                    if c.ob(bool(where), 'a plugin keeps what it has created on the bus', e):
                        made.setdefault(where[-1], (base_name(e.q), e))
        ps = c.run(de[0], InitPolicy())
        for loc, (what, src) in sorted(made.items(), key=str):
            n += 1
            end = 'a plugin removes what it has created on the bus when it is deinitialized'
            old = path_get(('init', THIS), loc[1])
            for x in ps:
                if x.facts.get(('null', old)) is True:
                    continue
                gone = [e for e in x.events if e.k == 'call' and base_name(e.q) in made_by[what] and (any(unmoved(a) == old for a in e.args) if made_by[what][0] != 'Reset' else e.rloc == (('deref', old), ()))]
                c.ob(x.kind == 'return' and len(gone) == 1, end, de[0], '%s of line %s: %d times' % (what[6:], src.src[1], len(gone)))
                c.ob(unmoved(x.get(loc)) == NULL, 'a plugin does not keep what it has removed', de[0], show_loc(loc))
    c.ob(n >= 3, 'plugins use the bus', None, str(n))


class InitPolicy(Policy):
    opaque = ('lp::log::', 'lp::messages::', 'lp::bus::', 'lp::plugins::Link::CreateZmqSocket', 'lp::plugins::Link::BindZmqSocket', 'lp::plugins::Link::ConnectZmqSocket')


# ------------------------------------------------------------------- C22
class AskPolicy(Policy):
    opaque = ('lp::log::', 'lp::messages::', 'lp::bus::', PT + '::') + FS_FNS


def same(a, b):
    return unmoved(a) == unmoved(b)


def c22(c):
    # the manager: which template, which bus
    f = c.one(PM + '::InstantiateTemplate', 2)
    A = ('p', 0)
    B = path_get(('p', 1), ('mBus',))
    asked = 0
    own = 'the instance comes from the template asked for'
    for x in c.run(f, AskPolicy()):
        calls = [e for e in reach(x.events) if e.k == 'call' and e.q == PT + '::Instantiate']
        ch = changed(x)
        known = [(t, v) for t, v in x.facts.items() if t[0] == 'in' and t[1] == A and holds_this(t[2])]
        c.ob(x.kind == 'return' and not ch, 'asking for an instance changes nothing about the plugins there are', f, outcome(x)[:60] + ' '.join(map(show_loc, ch)))
        if not known or known[0][1] is False:
            c.ob(bool(known) and not calls and unmoved(x.val) == NULL, 'an unknown plugin gives no instance', f, outcome(x)[:80])
            continue
        asked += 1
        m = known[0][0][2]
        if not c.ob(len(calls) == 1 and same(x.val, calls[0].res), own, f, outcome(x)[:80]):
            continue
        e = calls[0]
        r = e.rloc[0] if e.rloc else NULL
        c.ob(r[0] == 'deref' and contains(r, lambda y: y == ('at', m, A)), own, e, show(r)[:80])
        bus = path_get(unmoved(e.args[0]), ('mBus',))
        given = x.facts.get(('null', B))
        d = unmoved(bus)
        c.ob(given is False and d == B or given is True and d[0] == 'fld' and contains(d, lambda y: y == ('init', THIS)), 'the bus of an instance is the one given, or else the default bus', e, show(d)[:80])
        c.ob(same(e.args[1], d), 'the bus of an instance is the one given, or else the default bus', e)
        keeps_config(c, e.args[0], e)
    c.ob(asked > 0, own, f)
    setter(c)
    # the template: what an instance gets
    f = c.one(PT + '::Instantiate', 2)
    name = instances_field(c)
    for x in c.run(f, LifePolicy()):
        fresh = 'an instance has an identifier no other of its template has'
        fc = [e for e in reach(x.events) if e.k == 'fcall']
        kids = [e for e in reach(x.events) if e.k == 'call' and e.q == BUS + '::CreateChildBus']
        if not c.ob(x.kind == 'return' and len(fc) == 1 and len(kids) == 1, 'an instance is created once, on a bus of its own', f, '%d times, %d buses' % (len(fc), len(kids))):
            continue
        cfg = unmoved(fc[0].args[0])
        key = unmoved(path_get(cfg, ('mIdentifier',)))
        there = path_get(('init', THIS), (name,))
        free = x.facts.get(('in', key, there)) is False or x.facts.get(('empty', there)) is True
        c.ob(free or numbered(c, x, key, name), fresh, fc[0], show(key)[:80])
        c.ob(same(path_get(cfg, ('mBus',)), kids[0].res) and kids[0].rloc == (('deref', ('p', 1)), ()) and same(kids[0].args[0], key),
             'an instance is created once, on a bus of its own', kids[0], 'child bus %s' % show(kids[0].args[0])[:60])
        keeps_config(c, cfg, fc[0])
        c.ob(same(x.val, fc[0].res), 'the instance created is given back', f, outcome(x)[:60])
        fin = unmoved(x.get((THIS, (name,))))
        c.ob(fin == ('put', path_get(('init', THIS), (name,)), key, fc[0].res), 'the template remembers its instance', f, show(fin)[:80])
    instance_config(c)
    startup(c)
    command_line(c)


BUS = 'lp::bus::Bus'


def instance_config(c):
    """an instance keeps what it was made with, and creates what it asks for on its own bus"""
    get = c.one(PI + '::GetCustomConfiguration', 0)
    v = c.run(get, OwnPolicy())[0].val
    bus = c.run(c.one(PI + '::GetBus', 0), OwnPolicy())[0].val
    bus = bus.loc[1] if isinstance(bus, L) else fld_path(bus)
    cfg = v.loc[1] if isinstance(v, L) else fld_path(v)
    if not c.ob(bool(cfg) and bool(bus), 'an instance gives out its configuration and its bus', get):
        return
    made = []
    for cls in [PI] + c.prog.derived(PI):
        for f in c.prog.methods.get(cls, []):
            if f.get('isctor') and len(f['params']) == 1 and 'PluginConfiguration' in f['pt'][0]:
                made += [(f, x, THIS) for x in c.run(f, LifePolicy())]
    for f in c.prog.funcs.values():
        if '/src/plugins/' in f['file'] and base_name(f['q']) == 'CreateInstance':
            for x in c.run(f, PlugPolicy()):
                t = strip_own(unmoved(x.val)) if isinstance(x.val, tuple) else NULL
                made.append((f, x, t[1][0] if t[0] == 'addr' else NULL))
    for f, x, at in made:
        for path, name in ((cfg, 'mCustomConfiguration'), (bus, 'mBus')):
            c.ob(x.kind == 'return' and same(x.get((at, path)), path_get(('p', 0), (name,))), 'an instance keeps the configuration and the bus it was made with', f, show(x.get((at, path)))[:80])
    own = 'what an instance creates or deletes is created or deleted on its own bus'
    n = 0
    for f in c.prog.methods.get(PI, []):
        if f.get('isctor') or f.get('dtor') or f['q'] in (get['q'], PI + '::GetBus'):
            continue
        for x in c.run(f, OwnPolicy()):
            for path in (cfg, bus):
                for e in writes(list(reach(x.events)), (THIS, path)):
                    c.ob(e.val == e.old, 'an instance keeps the configuration and the bus it was made with', e, show(e.val)[:80])
            es = [e for e in reach(x.events) if e.k == 'call' and e.q.startswith(BUS + '::')]
            for e in es:
                n += 1
                c.ob(e.rloc == (('deref', path_get(('init', THIS), bus)), ()) and len(es) == 1 and [unmoved(a) for a in e.args[:len(f['params'])]] == [('p', i) for i in range(len(f['params']))], own, e)
                c.ob(f['rt'] == 'void' or same(x.val, e.res), own, f)
    c.ob(n >= 4, own, get, '%d operations' % n)


def command_line(c):
    """the configuration file named on the command line is the one that is followed"""
    from .host import MainPolicy
    LP = 'lp::LampPost'
    f = c.one('main')
    rule = 'the program follows the configuration file named on its command line, if there is one'
    seen = set()
    for x in c.run(f, MainPolicy()):
        if not any(e.k == 'call' and e.q == LP + '::Start' for e in reach(x.events)):
            continue
        cs = [t for v in x.store.values() if isinstance(v, tuple) for t in subterms(v) if isinstance(t, tuple) and t and t[0] == 'new' and t[1] == LP]
        if not c.ob(bool(cs), rule, f, 'the host is not found'):
            continue
        a0 = cs[0][2]
        a0 = a0 if isinstance(a0[0], str) else a0[0]
        t = unmoved(path_get(unmoved(a0), ('mConfigurationFiles',)))
        given = x.facts.get(('lt0', sub(C(1), ('p', 0))))
        if given is None and x.facts.get(('lt0', sub(('p', 0), C(2)))) is not None:
            given = not x.facts[('lt0', sub(('p', 0), C(2)))]
        arg = ('at', ('init', ('deref', ('p', 1))), C(1))
        c.ob(given is not None, rule, f, 'the number of arguments is not looked at')
        seen.add(given)
        items = [t[2]] if t[0] == 'app' and t[1] == EMPTY else [] if t in (EMPTY, ('zero', 'std::list')) else None
        if given:
            c.ob(items is not None and len(items) == 1 and contains(items[0], lambda y: y == arg), rule, f, show(t)[:80])
        else:
            c.ob(items == [], rule, f, show(t)[:80])
    c.ob(seen == {True, False}, rule, f)


def numbered(c, x, key, name):
    """the key ends in a number that no key of the map ends in: the map's size, or a counter that goes up with every entry"""
    old = path_get(('init', THIS), (name,))
    if key[0] != 'cat' or not key[1] or key[1][-1][0] != 'tostr':
        return False
    pre, num = key[1][:-1], unmoved(key[1][-1][1])
    mine = [y for t in pre for y in subterms(t) if isinstance(y, tuple) and y and y[0] in ('fld', 'init')]
    if any(y[0] not in ('fld', 'init', 'c', 'this') for t in pre for y in subterms(t) if isinstance(y, tuple) and y and isinstance(y[0], str)) or any(contains(y, lambda z: z == old) for y in mine):
        return False
    count = num[0] == 'fld' and num[1] == ('init', THIS)
    if not (count or num == size(old)):
        return False
    for f in c.prog.funcs.values():
        if f.get('cls') != PT or f.get('ctor') or f.get('implicit') or base_name(f['q']) in ('PluginTemplate', 'operator='):
            continue
        for y in c.run(f, LifePolicy()):
            m = unmoved(y.get((THIS, (name,))))
            n = unmoved(y.get((THIS, (num[2],)))) if count else None
            put = m[0] == 'put' and m[1] == old and unmoved(m[2]) == key
            if m not in (old, EMPTY) and not put:
                return False
            if count and not (n == num and not put or n == add(num, C(1)) or n == C(0) and m == EMPTY):
                return False
            for t in pre:
                if fld_path(t) and unmoved(y.get((THIS, fld_path(t)))) != t:
                    return False
    return True


def fld_path(t):
    r = ()
    while t[0] == 'fld':
        r = (t[2],) + r
        t = t[1]
    return r if t == ('init', THIS) else ()


def holds_this(t):
    return unmoved(t)[0] == 'fld' and contains(t, lambda y: y == ('init', THIS))


def changed(x):
    """members of this that differ from before"""
    return sorted({e.loc for e in reach(x.events) if e.k == 'acc' and e.rw == 'w' and e.loc[0] == THIS and unmoved(x.get(e.loc)) != path_get(('init', THIS), e.loc[1])}, key=str) \
        + [(THIS, (k,)) for k, v in fields_of(x.store.get(THIS)) if unmoved(v) != path_get(('init', THIS), (k,))]


def fields_of(t):
    return t[2] if isinstance(t, tuple) and t and t[0] == 'rec' else ()


def keeps_config(c, t, src):
    c.ob(same(path_get(unmoved(t), ('mCustomConfiguration',)), path_get(('p', 0), ('mCustomConfiguration',))) or same(path_get(unmoved(t), ('mCustomConfiguration',)), path_get(('p', 1), ('mCustomConfiguration',))),
         'an instance gets the configuration given', src)


def setter(c):
    f = c.one(PM + '::SetBus', 1)
    for x in c.run(f, AskPolicy()):
        w = changed(x)
        c.ob(x.kind == 'return' and len(set(w)) == 1 or len(w) >= 1 and any(same(x.get(l), ('p', 0)) for l in w), 'the default bus is the one that was set', f, ' '.join(map(show_loc, w)))


def startup(c):
    f = c.one('lp::LampPost::Start', 0)
    n = [0]
    files_seen = False
    none = False
    for x in c.run(f, StartPolicy()):
        evs = x.events
        c.ob(x.kind == 'return', 'starting up does not fail because of a plugin', x.val.src if x.kind == 'throw' else f, outcome(x)[:80])
        idx = {}
        for i, e in enumerate(evs):
            if e.k == 'call' and e.q in (PM + '::SetBus', PM + '::LoadTemplates', BUS + '::Start'):
                idx.setdefault(e.q, []).append(i)
            if e.k == 'loop' and any(y.k == 'call' and y.q in (PM + '::InstantiateTemplate', DG + '::DeserializeFromJson') for y in reach([e])):
                idx.setdefault('files', []).append(i)
        root = [e.rloc for e in evs if e.k == 'call' and e.q == BUS + '::Start']
        order = 'plugins are loaded, with the root bus as default, before the configuration is followed'
        ok = all(len(idx.get(k, [])) == 1 for k in (PM + '::SetBus', PM + '::LoadTemplates', BUS + '::Start'))
        if c.ob(ok, order, f, ', '.join('%s %d' % (base_name(k), len(v)) for k, v in idx.items())):
            sb = evs[idx[PM + '::SetBus'][0]]
            c.ob(root[0] and root[0][0] == ('deref', unmoved(sb.args[0])), 'the default bus of plugins is the bus LampPost runs', sb)
            last = max(idx[PM + '::SetBus'][0], idx[PM + '::LoadTemplates'][0])
            for i in idx.get('files', []):
                c.ob(last < i < idx[BUS + '::Start'][0], order, evs[i])
        every = 'every configuration file is followed, in order'
        fl = [evs[i] for i in idx.get('files', [])]
        if not fl:
            c.ob(any((t[0] == 'empty' and v or t[0] == 'eq0' and v) and contains(t, lambda y: y[0] == 'fld' and y[-1] == 'mConfigurationFiles') for t, v in x.facts.items()), every, f, 'none is although there may be some')
            continue
        if not c.ob(len(fl) == 1 and visits_all(fl[0]) and fl[0].cont is not None and unmoved(fl[0].cont)[-1] == 'mConfigurationFiles', every, fl[0]):
            continue
        F = ('at', fl[0].cont, ('ind', fl[0].id))
        for b in fl[0].bodies:
            c.ob(b['kind'] in ('next', 'n', 'c', 'continue'), every, fl[0], 'a file ends it')
            one_file(c, b, F, fl[0], n)
    c.ob(n[0] > 0, 'plugins are started as configured', f)


DG = 'lp::messages::Datagram'


def one_file(c, b, F, site, n):
    evs, facts = b['events'], dict(b['facts'])
    ds = [e for e in reach(evs) if e.k == 'call' and e.q == DG + '::DeserializeFromJson']
    if not c.ob(len(ds) == 1 and contains(ds[0].args[0], lambda y: y == F), 'the configuration comes from the file', site, '%d read' % len(ds)):
        return
    D = ds[0].res
    for e in straight(evs):
        if e.k == 'call' and e.q == PM + '::InstantiateTemplate':
            c.ob(False, 'every entry is followed once, in order', e)
    lst = ('at', D, C('plugins'))
    ls = [e for e in loops(evs) if any(y.k == 'call' and y.q == PM + '::InstantiateTemplate' for y in reach([e]))]
    every = 'every entry is followed once, in order'
    if not ls:
        ok = any(t == ('in', C('plugins'), D) and v is False or t[0] in ('empty', 'eq0') and v and contains(t, lambda y: y == lst) or t[0] == 'lt0' and v is False and contains(t, lambda y: y == size(lst)) for t, v in facts.items())
        ok = ok or any(e.k == 'loop' and e.cont is not None and same(e.cont, lst) for e in evs)
        c.ob(ok, every, site, 'none is although there may be some')
        return
    l = ls[0]
    if not c.ob(len(ls) == 1 and l.cont is not None and same(l.cont, lst) and visits_all(l), every, l, show(l.cont)[:80] if l.cont is not None else '?'):
        return
    E = ('at', l.cont, ('ind', l.id))
    for bd in l.bodies:
        n[0] += 1
        c.ob(bd['kind'] in ('next', 'n', 'c', 'continue'), 'an entry that cannot be followed does not keep the others from it', l, 'ends the loop')
        fs = dict(bd['facts'])
        calls = [e for e in reach(bd['events']) if e.k == 'call' and e.q == PM + '::InstantiateTemplate']
        typed = fs.get(('in', C('type'), E))
        if typed is not True:
            c.ob(typed is False and not calls, every, calls[0] if calls else l, 'an entry with a type is passed over' if not calls else 'an entry without type')
            continue
        if not c.ob(len(calls) == 1, every, l, '%d instances' % len(calls)):
            continue
        e = calls[0]
        c.ob(contains(e.args[0], lambda y: y == ('at', E, C('type'))), 'the plugin of an entry is the one it names', e, show(e.args[0])[:80])
        cfg = unmoved(e.args[1])
        c.ob(same(path_get(cfg, ('mCustomConfiguration',)), ('at', E, C('configuration'))), 'a plugin gets the configuration of its entry', e, show(path_get(cfg, ('mCustomConfiguration',)))[-80:])
        c.ob(unmoved(path_get(cfg, ('mBus',))) == NULL, 'a plugin uses the default bus', e)
        null = fs.get(('null', e.res))
        used = [y for y in reach(bd['events']) if y.k == 'call' and y.q in (PI + '::Initialize', PI + '::Start')]
        if null is not True:
            c.ob([base_name(y.q) for y in used] == ['Initialize', 'Start'] and all(y.rloc == (('deref', e.res), ()) for y in used), 'the plugin of an entry is initialized and started', used[0] if used else e)
        else:
            c.ob(not used, 'an entry that cannot be followed does not keep the others from it', e)
            c.ob(any(y.k == 'call' and y.q in ('lp::log::Log::Error', 'lp::log::Log::Warning') for y in reach(bd['events'])), 'an entry that cannot be followed is reported', e)
