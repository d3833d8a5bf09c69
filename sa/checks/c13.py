import re
from ..front import walk
from ..util import *

TECHNIQUE = 'effect analysis of the whole program: static storage, generators, clocks, environment, threads, global modes'
RULE = ('No function of the library refers to a variable of static or thread storage duration that can change (constants initialised from '
        'constants are allowed, and the standard output streams), and none calls a random generator, clock, environment, locale, rounding or '
        'threading function of the system.')

CLOCK = r'(^|::)(time|clock|clock_gettime|gettimeofday|times|now|mktime|localtime|gmtime)$'
HIDDEN = [
    (r'(^|::)(s?rand(_r)?|s?random(_r)?|[delmnjs]rand48|getrandom|arc4random|random_shuffle|setRandom|Random)$', 'a random generator with hidden state'),
    (r'(^|::)(random_device|mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine)(<.*>)?::random_device$', 'a random device'),
    (CLOCK, 'a clock'),
    (r'(^|::)(getenv|secure_getenv|setenv|putenv|setlocale|getpid|getcwd|hostname|sysconf|hardware_concurrency)$', 'the environment of the process'),
    (r'(^|::)(fesetround|fesetenv|feenableexcept|fedisableexcept|_mm_setcsr|omp_set_num_threads|setNbThreads|setCpuCacheSizes|set_terminate|signal|sigaction|atexit|strtok)$', 'a global mode of the process'),
    (r'(^|::)(thread::thread|jthread::jthread|async|pthread_create|detach)(<.*>)?$', 'another thread'),
]
STREAMS = ('std::cout', 'std::cerr', 'std::clog')


def check(P, R):
    muts = {}
    for g in P.globals.values():
        muts.setdefault(g['n'], []).append(g)
    nf = nr = nc = 0
    for f in sorted(P.fns.values(), key=lambda f: (f.name, f.loc)):
        if f.body is None or not P.is_repo(f):
            continue
        nf += 1
        hits = set()
        locals_ = {x['d'] for x in walk(f.body) if x.get('k') == 'var' and not x.get('static')}
        for x in [y for part in (f.body, f.j.get('inits') or []) for y in walk(part)]:
            k, n = x.get('k'), x.get('n')
            if k == 'ref' and x.get('vk') == 'global':
                nr += 1
                gs = muts.get(n, [])
                if n in STREAMS or (gs and not any(g.get('repo') for g in gs) and n.startswith('std::')):
                    continue
                if any(not g.get('const') for g in gs):
                    hits.add((n, 'refers to the variable %s, which outlives the call and can change' % n, x.get('l')))
            elif k == 'var' and x.get('static'):
                nr += 1
                gs = [g for g in muts.get(x['n'], []) + [h for m, v in muts.items() if m.split('::')[-1] == x['n'] for h in v] if g.get('static')]
                const = f.tu.t(x['t']).get('const') or gs and all(g.get('const') for g in gs)
                if not const:
                    hits.add((x['n'], 'keeps the variable %s from one call to the next' % x['n'], x.get('l')))
                elif x.get('init') is not None and any(y.get('k') == 'this' or y.get('k') == 'ref' and (y.get('vk') == 'param' or y.get('vk') == 'local')
                                                       for y in outer(x['init'])):
                    hits.add((x['n'], 'keeps the value that %s had in the first call' % x['n'], x.get('l')))
            elif isinstance(n, str) and k in ('call', 'mcall', 'ocall', 'ctor', 'tmp', 'new') or isinstance(n, str) and x.get('vk') == 'func':
                nc += 1
                if f.short == 'Random':
                    continue                # what it is for: its users count
                h = P.fns.get(x.get('fn'))
                if h is not None and h.body is not None and P.is_repo(h) and h.short != 'Random':
                    continue
                base = re.sub(r'<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>', '', n)
                for rx, what in HIDDEN:
                    if (re.search(rx, n) or re.search(rx, base)) and not (rx is CLOCK and R.config == 'timers'):
                        hits.add((base.split('::')[-1], 'uses %s (%s)' % (what, base), x.get('l')))
        short = re.sub(r'<.*?>', '', f.name)
        key = '%s:hidden state' % f.name
        if hits:
            for n, why, l in sorted(hits, key=str):
                R.bad('%s:%s' % (key, n), l or f.loc, why)
        else:
            R.ok(key, f.loc)
    R.count('references to static storage', nr)
    R.count('calls examined', nc)
    R.floor('functions examined', nf, 300)


def outer(e):
    """Nodes of an initialiser, without the bodies of lambdas (their parameters are their own)."""
    own = set()
    for x in walk(e):
        if x.get('k') == 'lambda':
            own |= {id(y) for y in walk(x)} - {id(x)}
    return [x for x in walk(e) if id(x) not in own]
