"""Loads the resolved program of /repo: generates the flatbuffers headers from the
current schemas, runs the extractor over every translation unit the Linux build
compiles, and merges the records."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LPA_REPO', '/repo')


class AnalysisError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


TU_GLOBS = ['src/lamppost/*.cpp', 'src/lamppost/bus/*.cpp', 'src/lamppost/data/*.cpp',
            'src/lamppost/exceptions/*.cpp', 'src/lamppost/log/*.cpp', 'src/lamppost/messages/*.cpp',
            'src/lamppost/plugin/*.cpp', 'src/lamppost/settings/*.cpp', 'src/lamppost/utilities/*.cpp',
            'src/lamppost/platformspecific/xnix/*.cpp', 'src/plugins/*/*.cpp', 'src/main.cpp']
# directories of src/lamppost that the Linux build does not compile
NOT_BUILT = ('platformspecific/windows', 'platformspecific/osx')


def units():
    r = []
    for g in TU_GLOBS:
        r += sorted(glob.glob(os.path.join(REPO, g)))
    # a source file in a new directory is part of the build glob too
    for root, _, fs in os.walk(os.path.join(REPO, 'src')):
        rel = os.path.relpath(root, os.path.join(REPO, 'src'))
        if any(x in rel for x in NOT_BUILT):
            continue
        for f in sorted(fs):
            p = os.path.join(root, f)
            if f.endswith('.cpp') and p not in r:
                r.append(p)
    return r


def content_key():
    h = hashlib.sha256()
    for base in ('src', 'include', 'schemas', '3rdparty'):
        for root, ds, fs in sorted(os.walk(os.path.join(REPO, base))):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith(('.h', '.cpp', '.fbs', '.hpp', '.inl', '.cc', '.c')) or 'schemas' in root and f.endswith('.h'):
                    continue
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    for p in (os.path.join(HERE, 'build/lpx'), os.path.join(HERE, 'witness/witness.cpp')):
        with open(p, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


_resdir = None


def flags(gen):
    global _resdir
    if _resdir is None:
        _resdir = sh(['clang++', '-print-resource-dir']).stdout.strip()
    return ['-std=gnu++14', '-include', 'fstream', '-DZMQ_BUILD_DRAFT_API',
            '-D_SILENCE_TR1_NAMESPACE_DEPRECATION_WARNING', '-I' + gen, '-I' + os.path.join(REPO, 'include'),
            '-I/usr/include/json-c', '-resource-dir', _resdir, '-w']


def extract():
    subprocess.run(['bash', os.path.join(HERE, 'tool/build.sh')], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    cache = os.path.join(HERE, 'build/cache')
    key = content_key()
    cf = os.path.join(cache, key + '.json')
    if os.path.exists(cf) and not os.environ.get('LPA_NOCACHE'):
        with open(cf) as f:
            return json.load(f)
    gen = tempfile.mkdtemp(prefix='lpagen')
    try:
        out = os.path.join(gen, 'lamppost/schemas')
        os.makedirs(out)
        fbs = sorted(glob.glob(os.path.join(REPO, 'schemas/*.fbs')))
        r = sh(['flatc', '--cpp', '-o', out] + fbs)
        if r.returncode:
            raise AnalysisError('flatc failed: ' + r.stdout + r.stderr)
        tus = units() + [os.path.join(HERE, 'witness/witness.cpp')]

        tucache = os.environ.get('LPA_TUCACHE')   # development only
        hh = hashlib.sha256()
        if tucache:
            os.makedirs(tucache, exist_ok=True)
            for base in ('include', 'schemas', 'src'):
                for root, ds, fs in sorted(os.walk(os.path.join(REPO, base))):
                    for f in sorted(fs):
                        if f.endswith(('.h', '.fbs')) and not ('schemas' in root and f.endswith('.h')):
                            hh.update(open(os.path.join(root, f), 'rb').read())
            hh.update(open(os.path.join(HERE, 'build/lpx'), 'rb').read())

        def one(tu):
            if tucache:
                h = hh.copy()
                h.update(tu.encode() + open(tu, 'rb').read())
                tf = os.path.join(tucache, h.hexdigest())
                if os.path.exists(tf):
                    return tu, json.load(open(tf)), ''
            r = one_(tu)
            if tucache and r[1] is not None:
                open(tf, 'w').write(json.dumps(r[1]))
            return r

        def one_(tu):
            r = sh([os.path.join(HERE, 'build/lpx'), REPO + '/src:' + REPO + '/include', 'schemas/', tu, '--'] + flags(gen), cwd=REPO)
            if r.returncode or not r.stdout.strip():
                return tu, None, r.stderr[-2000:]
            return tu, json.loads(r.stdout), ''
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            res = list(ex.map(one, tus))
        bad = [(t, e) for t, d, e in res if d is None]
        if bad:
            raise AnalysisError('cannot parse: ' + '; '.join('%s: %s' % b for b in bad))
        merged = {'funcs': {}, 'classes': {}, 'globals': {}, 'tus': [os.path.relpath(t, REPO) for t, _, _ in res[:-1]]}
        for t, d, _ in res:
            for f in d['funcs']:
                i = f['id']
                if f.get('externc') and i in merged['funcs'] and merged['funcs'][i]['file'] != f['file']:
                    i = f['id'] = i + '@' + f['file']   # one per plugin library
                if i not in merged['funcs']:
                    merged['funcs'][i] = f
            for c in d['classes']:
                c0 = merged['classes'].get(c['q'])
                if c0 is None:
                    merged['classes'][c['q']] = c
                else:  # implicit members are declared lazily; keep the union
                    have = {m['id'] for m in c0['methods']}
                    c0['methods'] += [m for m in c['methods'] if m['id'] not in have]
            for g in d['globals']:
                merged['globals'].setdefault(g['q'] + '@' + g['file'], g)
        if tucache:
            return merged
        os.makedirs(cache, exist_ok=True)
        for old in glob.glob(os.path.join(cache, '*.json')):
            if len(glob.glob(os.path.join(cache, '*.json'))) > 6:
                try:
                    os.remove(old)
                except OSError:
                    pass
        tmp = cf + '.%d' % os.getpid()
        with open(tmp, 'w') as f:
            f.write(json.dumps(merged))
        os.rename(tmp, cf)
        return merged
    finally:
        shutil.rmtree(gen, ignore_errors=True)


def base_name(q):
    """last component of a qualified name, template arguments stripped"""
    d = 0
    cut = 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == '<' and not q[:i].endswith('operator') and not q[:i].endswith('operator<'):
            d += 1
        elif c == '>' and d > 0 and not q[:i].endswith('operator-'):
            d -= 1
        elif c == ':' and d == 0 and q[i:i + 2] == '::' and not q[cut:].startswith('operator '):
            cut = i + 2
            i += 1
        i += 1
    n = q[cut:]
    if not n.startswith('operator'):
        j = n.find('<')
        if j > 0:
            n = n[:j]
    return n


def walk(n):
    """every dict node below n (AST)"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    st.append(v)


class Prog:
    def __init__(self):
        m = extract()
        self.tus = m['tus']
        self.funcs = {i: f for i, f in m['funcs'].items() if not (i.startswith('lambda@') and '.(lambda' in i) and not i.split('#')[0].endswith('.__invoke')}
        self.classes = m['classes']
        self.globals = m['globals']
        self.by_q = {}
        for f in self.funcs.values():
            self.by_q.setdefault(f['q'], []).append(f)
        self.overriders = {}
        for f in self.funcs.values():
            for o in f.get('over', []):
                self.overriders.setdefault(o, []).append(f['id'])
        self.methods = {}
        for f in self.funcs.values():
            if 'cls' in f and not f.get('lam'):
                self.methods.setdefault(f['cls'], []).append(f)

    def all_overriders(self, fid):
        r, w = [], [fid]
        while w:
            x = w.pop()
            for y in self.overriders.get(x, []):
                if y not in r:
                    r.append(y)
                    w.append(y)
        return r

    def fn(self, q, npar=None, pt=None):
        c = [f for f in self.by_q.get(q, []) if (npar is None or len(f['params']) == npar) and (pt is None or all(s in t for s, t in zip(pt, f['pt'])))]
        return c

    def bases(self, cls):
        r, w = [], [cls]
        while w:
            x = w.pop()
            if x in r:
                continue
            r.append(x)
            if x in self.classes:
                w += self.classes[x]['bases']
        return r

    def derived(self, cls):
        return [c for c in self.classes if cls in self.bases(c)]

    def fields(self, cls):
        r = []
        for b in self.bases(cls):
            if b in self.classes:
                r += [dict(f, cls=b) for f in self.classes[b]['fields']]
        return r

    def rel(self, f):
        return os.path.relpath(f, REPO) if f else '?'
