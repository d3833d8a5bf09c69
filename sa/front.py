"""Front end: builds the extractor, parses /repo's current sources, merges the
type-resolved program of all translation units."""
import hashlib, json, os, re, subprocess, sys, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
TOOLSRC = os.path.join(VERIF, 'tool', 'extract.cc')
TOOL = os.path.join(CACHE, 'extract')


class AnalysisBroken(Exception):
    pass


def build_tool():
    os.makedirs(CACHE, exist_ok=True)
    h = hashlib.sha256(open(TOOLSRC, 'rb').read()).hexdigest()
    stamp = os.path.join(CACHE, 'extract.stamp')
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == h:
            return
        cmd = ['/usr/bin/clang++-18', '-O1', '-std=c++17', '-fno-rtti',
               '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
               '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
               '-D__STDC_LIMIT_MACROS', TOOLSRC, '-o', TOOL,
               '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1',
               '-l:libLLVM-18.so', '-Wl,-rpath,/usr/lib/llvm-18/lib']
        env = dict(os.environ, PATH='/usr/bin:/bin')
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if r.returncode:
            raise AnalysisBroken('cannot build extractor: ' + r.stdout.decode()[-2000:])
        with open(stamp, 'w') as f:
            f.write(h)


COMMON = ['-std=c++17', '-O0', '-w', '-DNDEBUG', '-DEIGEN_NO_DEBUG',
          '-isystem', '/usr/include/eigen3']


def translation_units():
    """(file, flags): every source the build lists, plus the instantiation unit."""
    conex = os.path.join(REPO, 'conex')
    listed = ''
    for f in ('conex/BUILD', 'interfaces/BUILD', 'interfaces/Makefile'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            listed += open(p).read()
    out, skipped = [], []
    for f in sorted(os.listdir(conex)):
        if f.endswith('.cc'):
            if re.search(r'\b' + re.escape(f) + r'\b', listed):
                out.append((os.path.join(conex, f), ['-I' + REPO]))
            else:
                skipped.append('conex/' + f)
    out.append((os.path.join(REPO, 'interfaces', 'conex.cc'),
                ['-I' + REPO, '-I' + os.path.join(REPO, 'interfaces')]))
    out.append((os.path.join(VERIF, 'tool', 'inst', 'inst.cc'), ['-I' + REPO]))
    return out, skipped


CONFIGS = {
    'default': [],
    'asserts': ['-UNDEBUG'],
    'quiet': ['-DCONEX_VERBOSE=0'],
    'timers': ['-DCONEX_ENABLE_TIMER=1'],
}


def source_hash(config):
    h = hashlib.sha256()
    h.update(repr(CONFIGS[config]).encode())
    h.update(open(TOOLSRC, 'rb').read())
    for base in ('conex', 'interfaces'):
        for d, ds, fs in os.walk(os.path.join(REPO, base)):
            ds[:] = sorted(x for x in ds if x not in ('test', 'tests', 'util', 'dependencies'))
            for f in sorted(fs):
                if f.endswith(('.h', '.cc', 'BUILD', 'Makefile')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    h.update(open(os.path.join(VERIF, 'tool', 'inst', 'inst.cc'), 'rb').read())
    return h.hexdigest()[:24]


def extract_all(config='default'):
    build_tool()
    key = source_hash(config)
    d = os.path.join(CACHE, 'x-' + key)
    tus, skipped = translation_units()
    with open(os.path.join(CACHE, 'lock2'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, 'ok')):
            os.makedirs(d, exist_ok=True)
            # keep only a few cached parses
            old = sorted((os.path.getmtime(os.path.join(CACHE, x)), x)
                         for x in os.listdir(CACHE) if x.startswith('x-'))
            for _, x in old[:-14]:
                if x != 'x-' + key:
                    for f in os.listdir(os.path.join(CACHE, x)):
                        os.unlink(os.path.join(CACHE, x, f))
                    os.rmdir(os.path.join(CACHE, x))

            def one(t):
                f, fl = t
                o = os.path.join(d, os.path.basename(f) + ('.api' if '/interfaces/' in f else '') + '.json')
                cmd = [TOOL, REPO + '/', os.path.join(VERIF, 'tool', 'inst') + '/', o, f, REPO] + COMMON + CONFIGS[config] + fl
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   env=dict(os.environ, PATH='/usr/bin:/bin'))
                if r.returncode or not os.path.exists(o):
                    return f, r.stdout.decode()[-1500:]
                return None
            with ThreadPoolExecutor(8) as ex:
                errs = [e for e in ex.map(one, tus) if e]
            if errs:
                raise AnalysisBroken('source does not parse: ' + repr(errs[:3]))
            open(os.path.join(d, 'ok'), 'w').write('1')
    files = []
    for f, _ in tus:
        o = os.path.join(d, os.path.basename(f) + ('.api' if '/interfaces/' in f else '') + '.json')
        files.append((os.path.relpath(f, REPO) if f.startswith(REPO) else 'inst.cc', o))
    return files, skipped


class Fn:
    __slots__ = ('j', 'tu', 'key', 'name', 'short', 'loc', 'params', 'body', 'rec')

    def __init__(self, j, tu):
        self.j, self.tu = j, tu
        self.key, self.name, self.short, self.loc = j['key'], j['n'], j['s'], j['l']
        self.params, self.body = j['params'], j['body']
        self.rec = j.get('rec')

    def __repr__(self):
        return '<Fn %s %s>' % (self.name, self.loc)


class TU:
    def __init__(self, name, j):
        self.name, self.types = name, j['types']

    def t(self, i):
        return self.types[i] if i is not None and i >= 0 else {'s': '?', 'k': 'other'}


class Prog:
    def __init__(self, config='default'):
        self.config = config
        self.fns, self.records, self.globals, self.enums = {}, {}, {}, {}
        self.tus = []
        t0 = time.time()
        files, self.skipped = extract_all(config)
        for name, f in files:
            j = json.load(open(f))
            tu = TU(name, j)
            self.tus.append(tu)
            for k, v in j['functions'].items():
                if k not in self.fns:
                    self.fns[k] = Fn(v, tu)
            for k, v in j['records'].items():
                if k not in self.records or (v.get('methods') and len(v['methods']) > len(self.records[k]['methods'])):
                    v['tu'] = tu
                    self.records[k] = v
            for k, v in j['globals'].items():
                if k not in self.globals:
                    v['tu'] = tu
                    self.globals[k] = v
            self.enums.update(j['enums'])
        self.load_s = time.time() - t0
        self.by_name = {}
        for f in self.fns.values():
            self.by_name.setdefault(f.name, []).append(f)
        self._over = None

    def named(self, name):
        return self.by_name.get(name, [])

    def overriders(self, key):
        """All methods overriding the virtual method with USR key (transitively), with bodies."""
        if self._over is None:
            self._over = {}
            for r in self.records.values():
                for m in r['methods']:
                    for b in m.get('ov', []):
                        self._over.setdefault(b, []).append(m['fn'])
        out, todo = [], [key]
        while todo:
            k = todo.pop()
            for x in self._over.get(k, []):
                if x not in out:
                    out.append(x)
                    todo.append(x)
        return out

    def is_repo(self, fn):
        return not fn.loc.startswith('<')


def walk(n):
    """Yield every dict node below n (statements and expressions)."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            stack.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(v for v in x if isinstance(v, (dict, list)))
