"""Facts about the analysed tree: runs the libTooling extractor over translation units of the current working tree
and merges what it reports (functions with resolved bodies, records, enums, globals)."""
import os, re, sys, json, hashlib, subprocess, glob, fcntl, pickle, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo').rstrip('/')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.environ.get('SX_CACHE') or os.path.join(VERIF, 'cache')
MODULES = ['SEUtils', 'ModelFitting', 'SEFramework', 'SEImplementation', 'SEMain']


class Broken(Exception):
    """analysis-broken: an anchor vanished or the tree does not parse (error exit, never a verdict)"""


def build_extractor():
    src = os.path.join(VERIF, 'extractor', 'sxdump.cpp')
    out = os.path.join(BUILD, 'sxdump')
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()
    stamp = out + '.stamp'
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h:
            return out
        cxx = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
        cxx = [f for f in cxx if not f.startswith('-std=') and f != '-fno-exceptions']
        so = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18*') + glob.glob('/usr/lib/llvm-18/lib/libclang-cpp.so*'))
        if not so:
            raise Broken('libclang-cpp not found')
        cmd = ['clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-w'] + cxx + [src, '-o', out, so[0], '-L/usr/lib/llvm-18/lib', '-lLLVM-18']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken('extractor does not build: ' + r.stderr[-2000:])
        open(stamp, 'w').write(h)
    return out


def flags(repo=None, extra=()):
    repo = repo or REPO
    return ['-std=c++17', '-w', '-ferror-limit=0', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-include', VERIF + '/stubs/sx_prelude.h'] + \
        ['-I%s/%s' % (repo, m) for m in MODULES] + ['-I' + VERIF + '/stubs', '-I/usr/include/python3.12'] + list(extra)


_files, _common = {}, None
_INC = re.compile(rb'^[ \t]*#[ \t]*(?:include|include_next|import)[ \t]*(["<])([^">\n]+)[">]|^[ \t]*#[ \t]*include[ \t]+(\w+)', re.M)


def _scan(path):
    """(hash of the file, files of the tree it includes)"""
    if path not in _files:
        data = open(path, 'rb').read()
        inc = []
        for q, name, macro in _INC.findall(data):
            if macro:
                inc.append('?')
                continue
            name = name.decode()
            for d in ([os.path.dirname(path)] if q == b'"' else []) + ['%s/%s' % (REPO, m) for m in MODULES] + [VERIF + '/stubs']:
                c = os.path.normpath(os.path.join(d, name))
                if os.path.isfile(c):
                    inc.append(c)
                    break
        _files[path] = (hashlib.sha1(data).digest(), inc)
    return _files[path]


def tree_hash(tu):
    """hash of everything of the tree that the translation unit reads"""
    global _common
    if _common is None:
        h = hashlib.sha1()
        for f in [os.path.join(VERIF, 'extractor', 'sxdump.cpp')] + sorted(os.path.join(d, f) for d, _, fn in os.walk(os.path.join(VERIF, 'stubs')) for f in fn):
            h.update(f.encode() + open(f, 'rb').read())
        _common = h.hexdigest()
    seen, todo = {tu}, [tu]
    while todo:
        for c in _scan(todo.pop())[1]:
            if c == '?':
                return None         # an include that only the preprocessor can resolve: never cached
            if c not in seen:
                seen.add(c)
                todo.append(c)
    h = hashlib.sha1(_common.encode())
    for f in sorted(seen):
        h.update(f.encode() + _scan(f)[0])
    return h.hexdigest()


def extract(tu, extra=()):
    """JSON facts of one translation unit (absolute path)"""
    exe = build_extractor()
    key = hashlib.sha1(((tree_hash(tu) or str(time.time())) + tu + REPO + ' '.join(extra)).encode() + open(tu, 'rb').read()).hexdigest()
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + '.json')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        roots = REPO + '/:' + VERIF + '/drivers/'
        r = subprocess.run([exe, tmp, roots, tu, '--'] + flags(extra=extra), capture_output=True, text=True, cwd=REPO)
        if not os.path.exists(tmp):
            raise Broken('extractor failed on %s: %s' % (tu, r.stderr[-1500:]))
        os.rename(tmp, out)
        if r.stderr:
            open(out + '.err', 'w').write(r.stderr[-4000:])
    return out


def _types(n, tl):
    """replace type indices by strings"""
    if isinstance(n, dict):
        for k, v in n.items():
            if k in ('t', 'ret', 'of', 'ct', 'base') and isinstance(v, int) and not isinstance(v, bool):
                if k == 'of' or k == 't' or k == 'ret' or k == 'ct' or k == 'base':
                    n[k] = tl[v] if v >= 0 else ''
            elif isinstance(v, (dict, list)):
                _types(v, tl)
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                _types(x, tl)


class Func(dict):
    @property
    def loc(self):
        return '%s:%d' % (rel(self['file']), self['l'])

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def rel(f):
    return f[len(REPO) + 1:] if f.startswith(REPO + '/') else f


ENUM_NAMES = set()


class Facts:
    def __init__(self, tus, extra=(), allow_errors=True):
        self.funcs = {}
        self.by_q = {}
        self.records = {}
        self.rec_q = {}
        self.enums = {}
        self.vars = {}
        self.allvars = []
        self.overriders = {}
        self.tus = []
        self.errors = 0
        tus = [t if os.path.isabs(t) else os.path.join(REPO, t) for t in tus]
        build_extractor()
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda t: extract(t, extra), tus))
        for t, o in zip(tus, outs):
            self._load(t, o)
        for f in self.funcs.values():
            for k in f.get('over', ()):
                self.overriders.setdefault(k, []).append(f)

    def _load(self, tu, path):
        d = json.load(open(path))
        tl = d['types']
        self.tus.append(tu)
        if d.get('errors'):
            self.errors += d['errors']
            self.err_tus = getattr(self, 'err_tus', []) + [tu]
        for f in d['functions']:
            k = f['key']
            if k in self.funcs:
                continue
            _types(f, tl)
            f = Func(f)
            f['tu'] = tu
            self.funcs[k] = f
            self.by_q.setdefault(f['q'], []).append(f)
        for r in d['records']:
            if r['key'] in self.records:
                continue
            _types(r, tl)
            self.records[r['key']] = r
            self.rec_q.setdefault(r['q'], []).append(r)
        for e in d['enums']:
            self.enums.setdefault(e['q'], e)
            ENUM_NAMES.add(e['q'])
        for v in d['vars']:
            _types(v, tl)
            self.allvars.append(v)
            if v['q'] not in self.vars:
                self.vars[v['q']] = v

    # ---- lookup
    def fn(self, q, **kw):
        """all concrete definitions with qualified name suffix q"""
        r = [f for n, fs in self.by_q.items() if n == q or n.endswith('::' + q) for f in fs if not f.get('dep')]
        for k, v in kw.items():
            if k == 'np':
                r = [f for f in r if len(f['params']) == v]
            else:
                r = [f for f in r if f.get(k) == v]
        return sorted(r, key=lambda f: (f['file'], f['l'], f.get('cta', ''), f.get('ta', '')))

    def one(self, q, **kw):
        r = self.fn(q, **kw)
        if not r:
            raise Broken('anchor vanished: no definition of %s %s' % (q, kw or ''))
        return r[0]

    def rec(self, q):
        r = [x for n, rs in self.rec_q.items() if n == q or n.endswith('::' + q) for x in rs]
        c = [x for x in r if not x.get('dep')]
        return c or r

    def methods(self, cls):
        return [f for f in self.funcs.values() if (f.get('cls') or '') == cls or (f.get('cls') or '').endswith('::' + cls)]

    def bases_of(self, r, seen=None):
        seen = seen if seen is not None else set()
        for b in r['bases']:
            if b.get('key') in self.records and b['key'] not in seen:
                seen.add(b['key'])
                self.bases_of(self.records[b['key']], seen)
            elif b.get('q'):
                seen.add(b['q'])
        return seen

    def derives(self, r, q):
        """record r (transitively) derives from class named q"""
        for b in r['bases']:
            bq = b.get('q', '')
            if bq == q or bq.endswith('::' + q):
                return True
            br = self.records.get(b.get('key'))
            if br and self.derives(br, q):
                return True
        return False


def walk(n):
    """pre-order over all dict nodes with kind"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            st.extend(reversed([v for v in x.values() if isinstance(v, (dict, list))]))
        elif isinstance(x, list):
            st.extend(reversed(x))


def tus(*globs_):
    out = []
    for g in globs_:
        m = sorted(glob.glob(os.path.join(REPO, g), recursive=True))
        out += [x for x in m if '/tests/' not in x]
    return out
