import itertools
from ..util import *
from ..terms import pdict, atoms
from ..poly import prove
from ..engine import LOCOPS
from .c27 import Trip, span

TECHNIQUE = 'symbolic layout analysis: pointer offsets and extents of every workspace region against the reported size'
RULE = ('For every workspace type: each matrix and each number that Initialize (or a constructor that is given memory) places in '
        'the memory lies inside the size the type reports, overlaps no other one, starts at a 16-byte boundary if its type '
        'promises alignment, and none is left out; the reported size keeps the boundary for the next workspace. Lists of '
        'workspaces advance by the size of the workspace just placed and report the sum of all. The memory of a program holds at '
        'least the reported size of the very list that is placed in it, and that list has the workspace and the Newton system of '
        'every constraint, the statistics and the system of the program. The rounding function returns a multiple of four '
        'that is not smaller than its argument.')

ALIGN = 'get_size_aligned'
O = mk('p', 'O')
THIS = mk('pt', O)
DATA = mk('p', 'DATA')
NUM = {}          # field -> number of values a pointer member gives access to (default 1)
NUM['sqrt_inv_mu'] = NUM['norm_inf_d'] = 'max_iter_'


class Lay(Trip):
    def __init__(self):
        super().__init__()
        self.maps, self.phi = [], {}

    def opaque(self, fn):
        return fn.short in (ALIGN, 'S_S')

    def on_map(self, I, st, ptr, r, c, node):
        self.maps.append((ptr, r, c, st.loops, st.facts.copy()))

    def on_loop_done(self, I, lid, ix, trip, entry, modified, backs, exits):
        super().on_loop_done(I, lid, ix, trip, entry, modified, backs, exits)
        for loc, how in modified.items():
            self.phi[(lid, loc)] = (entry.read(loc), [b.read(loc) for b in backs]) if how[0] == 'phi' else None


def noconv(t):
    mp = {x: x.a[0] for x in subterms(t) if x.op in ('u', 'trunc') and len(x.a) == 1}
    for _ in range(4):
        if not mp:
            return t
        t = subst(t, mp)
        mp = {x: x.a[0] for x in subterms(t) if x.op in ('u', 'trunc') and len(x.a) == 1}
    return t


def place(v):
    """(base, offset) of a pointer value, in elements."""
    if v.op == 'padd':
        b = place(v.a[0])
        return b and (b[0], add(b[1], v.a[1]))
    if v.op == '&' and v.a[0].op == 'e' and len(v.a[0].a) == 2:
        return mk('&', v.a[0].a[0]), v.a[0].a[1]
    if v.op in ('p', 'lp') or v.op == '&':
        return v, ZERO
    return None


def isal(x):
    return x.op == 'call' and str(x.a[0]).endswith(ALIGN)


def axioms(f, ts):
    """Sizes are not negative; the rounded size is at least its argument (decided separately)."""
    f = f.copy()
    for t in ts:
        for x in subterms(t):
            if isal(x):
                a = noconv(x.a[1])
                f.assume(ge0(x))
                f.assume(ge0(sub(x, a)))
            elif x.op == 'i' or x.op == 'p' and x not in (O, DATA) or x.op in ('get', 'fv') and not isptr(x):
                f.assume(ge0(x))
    return f


def isptr(x):
    return x.op == 'p' and x in (O, DATA)


def table(P, R):
    """The rounding function on 0..63: bounds and multiples of four."""
    fs = [f for f in P.fns.values() if f.short == ALIGN and f.body is not None]
    tab = {}
    for f in fs[:1]:
        for n in range(64):
            v = [o.val for o in rets(Interp(P, Client()).run(f, [C(n)]))]
            if len(v) != 1 or not isc(v[0]):
                R.und('rounding', f.loc, 'not a closed form')
                return None
            tab[n] = cval(v[0])
        wrong = [n for n in tab if tab[n] < n or tab[n] % 4]
        R.verdict(not wrong, 'rounding', f.loc, 'get_size_aligned(%s) is %s: not a multiple of 4 of at least that size' % (
            wrong[0] if wrong else '', tab[wrong[0]] if wrong else ''))
        # n -> n+4 shifts the result by 4: the table decides all n
        per = all(tab[n + 4] == tab[n] + 4 for n in range(60))
        R.verdict(True if per else None, 'rounding:periodic', f.loc)
    return tab


def value(t, env, tab):
    if t in env:
        return env[t]
    if isc(t):
        return cval(t)
    if t.op in ('u', 'trunc') and len(t.a) == 1:
        return value(t.a[0], env, tab)
    if isal(t) and tab:
        n = value(t.a[1], env, tab)
        if n not in tab:
            raise KeyError
        return tab[n]
    if t.op == 'poly':
        s = 0
        for m, c in pdict(t).items():
            p = c
            for i, k in m:
                p = p * value(BY_ID(i), env, tab) ** k
            s += p
        return s
    if t.op in ('idiv', 'imod') and len(t.a) == 2:
        a, b = value(t.a[0], env, tab), value(t.a[1], env, tab)
        if a < 0 or b <= 0:
            raise KeyError
        return a // b if t.op == 'idiv' else a % b
    if t.op == 'ite':
        return value(t.a[1] if value(t.a[0], env, tab) else t.a[2], env, tab)
    if t.op == 'eq0':
        return int(value(t.a[0], env, tab) == 0)
    if t.op in ('ge0',):
        return int(value(t.a[0], env, tab) >= 0)
    if t.op in ('not',):
        return int(not value(t.a[0], env, tab))
    raise KeyError


def inputs(ts):
    """Plain inputs the sizes depend on; None if they depend on anything else."""
    out = set()
    todo = list(ts)
    while todo:
        t = todo.pop()
        if isc(t):
            continue
        if t.op in ('i', 'p', 'get') and not isptr(t):
            out.add(t)
        elif t.op == 'poly':
            todo += [BY_ID(i) for m in pdict(t) for i, _ in m]
        elif isal(t) or t.op == 'call' and isal(t):
            todo.append(t.a[1])
        elif t.op in ('u', 'trunc', 'ite', 'eq0', 'ge0', 'not', 'idiv', 'imod'):
            todo += [x for x in t.a if hasattr(x, 'op')]
        else:
            return None
    return sorted(out, key=show)


def envs(facts, ts, lits):
    ins = inputs(list(ts) + [x for x, _ in lits])
    if ins is None or len(ins) > 3:
        return
    rng = range(0, 6)
    flags = {x for t, _ in lits for x in subterms(t) if x in ins and t.op == 'eq0' and t.a[0] is x and not any(x is y for z in ts for y in subterms(z))}
    for vals in itertools.product(*[range(0, 2) if x in flags else rng for x in ins]):
        yield dict(zip(ins, vals))


def holds(lits, env, tab):
    try:
        return all(bool(value(t, env, tab)) == v for t, v in lits)
    except KeyError:
        return False


def nonneg(R, facts, p, tab, also=()):
    """True / (False, example) / None for p >= 0."""
    p = noconv(p)
    if prove(axioms(facts, [p]), p):
        return True, None
    lits = [(t, v) for t, v in facts.lit.items() if t.op in ('eq0',)]
    lits = [(noconv(t), v) for t, v in lits]
    for env in envs(facts, [p], lits):
        try:
            if holds(lits, env, tab) and value(p, env, tab) < 0:
                return False, env
        except KeyError:
            return None, None
    return None, None


def ex(env):
    return ', '.join('%s=%s' % (show(k).replace('*O.', '').strip('*'), v) for k, v in sorted(env.items(), key=lambda kv: show(kv[0]))) if env else ''


def even(p, facts, tab):
    """Is an offset a multiple of two doubles?"""
    p = noconv(p)
    d = pdict(p)
    if all(c % 2 == 0 or any(isal(BY_ID(i)) for i, _ in m) for m, c in d.items()):
        return True, None
    lits = [(noconv(t), v) for t, v in facts.lit.items() if t.op == 'eq0']
    for env in envs(facts, [p], lits):
        try:
            if holds(lits, env, tab) and value(p, env, tab) % 2:
                return False, env
        except KeyError:
            break
    return None, None


def fit(R, key, where, facts, regs, total, tab, aligned_total=True):
    """Obligations for a set of regions [(name, offset, extent, aligned)] in a memory of `total` numbers."""
    for nm, off, n, al in regs:
        ok, env = nonneg(R, facts, off, tab)
        if ok is True:
            ok, env = nonneg(R, facts, sub(sub(total, off), n), tab)
            if ok is not True:
                # an empty region needs no room
                e = noconv(n)
                if e is ZERO:
                    ok = True
        R.verdict(ok, '%s:%s:inside' % (key, nm), where, '%s ends at %s, beyond the reported size %s (%s)' % (
            nm, show(add(off, n))[:80], show(total)[:80], ex(env)))
        if al:
            ok, env = even(off, facts, tab)
            R.verdict(ok, '%s:%s:aligned' % (key, nm), where, '%s starts at an odd offset %s (%s)' % (nm, show(off)[:80], ex(env)))
    for (n1, o1, e1, _), (n2, o2, e2, _) in itertools.combinations(regs, 2):
        a, env = nonneg(R, facts, sub(sub(o2, o1), e1), tab)
        b, _ = (None, None) if a is True else nonneg(R, facts, sub(sub(o1, o2), e2), tab)
        v = True if a is True or b is True or noconv(e1) is ZERO or noconv(e2) is ZERO else None
        env = None
        if v is None:
            lits = [(noconv(t), w) for t, w in facts.lit.items() if t.op == 'eq0']
            for en in envs(facts, [noconv(x) for x in (o1, e1, o2, e2)], lits):
                try:
                    if holds(lits, en, tab):
                        x1, l1, x2, l2 = [value(noconv(x), en, tab) for x in (o1, e1, o2, e2)]
                        if l1 and l2 and x1 < x2 + l2 and x2 < x1 + l1:
                            v, env = False, en
                            break
                except KeyError:
                    break
        R.verdict(v, '%s:%s/%s:disjoint' % (key, n1, n2), where, '%s at %s and %s at %s share memory (%s)' % (
            n1, show(o1)[:60], n2, show(o2)[:60], ex(env)))
    if aligned_total:
        ok, env = even(total, facts, tab)
        R.verdict(ok, key + ':size', where, 'the reported size %s is odd: whatever is placed next is not aligned (%s)' % (show(total)[:80], ex(env)))


def fields(P, rec):
    rs = [r for r in P.records.values() if r['n'] == rec and r.get('fields')]
    return [dict(n=f['n'], ty=rs[0]['tu'].t(f['t'])) for f in rs[0]['fields']] if rs else []


def regions(P, R, key, f, st, rec, base, fl):
    """Regions of the object *O after it was given memory at `base`."""
    out = []
    for fd in fl:
        t = fd['ty']
        ism = t.get('r') == 'Eigen::Map'
        isp = t['k'] == 'ptr' and t['s'].replace(' ', '') == 'double*'
        if not ism and not isp:
            continue
        loc = mk('f', THIS, fd['n'])
        v = st.read(loc)
        for fc, w in cases(st.facts, v):
            if ism:
                m = [w] if w.op == 'map' else []
                ptr, n = (m[0].a[0], mul(m[0].a[1], m[0].a[2])) if m else (None, None)
            else:
                ptr, n = w, (st.read(mk('f', THIS, NUM[fd['n']])) if fd['n'] in NUM and any(x['n'] == NUM[fd['n']] for x in fl) else ONE)
            out.append((fd['n'], fc, ptr, n, ism and 'Eigen::Map' in t['s'] and aligned(t['s'])))
    return out


def aligned(s):
    import re
    m = re.search(r'Eigen::Map<.*?>\s*,\s*(\d+)', s) or re.search(r'Map<[^;]*Aligned', s)
    return bool(m)


def layouts(P, R, tab):
    n = 0
    subj = {}
    for f in P.fns.values():
        if f.body is None or not P.is_repo(f):
            continue
        ps = [f.tu.t(p['t']) for p in f.params]
        if f.short == 'Initialize' and len(ps) == 2 and ps[1]['s'].replace(' ', '') == 'double*' and ps[0]['k'] == 'ptr':
            subj.setdefault(ps[0]['s'].replace(' *', '').replace('*', '').strip(), {})['init'] = f
        elif f.short == 'SizeOf' and len(ps) == 1 and ps[0].get('ref'):
            subj.setdefault(ps[0]['s'].replace('const ', '').replace('&', '').strip(), {})['size'] = f
        elif f.j.get('ctor') and len(ps) >= 2 and ps[-1]['s'].replace(' ', '') == 'double*':
            subj.setdefault(f.name.rsplit('::', 1)[0], {}).setdefault('ctor', []).append(f)
    for rec, d in sorted(subj.items()):
        fl = fields(P, rec)
        if 'size' not in d or not any(fd['ty'].get('r') == 'Eigen::Map' or fd['ty']['k'] == 'ptr' for fd in fl):
            continue
        for f in [d[k] for k in ('init',) if k in d] + d.get('ctor', []):
            key = '%s:%s' % (rec.replace('conex::', '').replace('(anonymous namespace)::', ''), 'Initialize' if f is d.get('init') else 'constructor')
            try:
                cl = Lay()
                I = Interp(P, cl)
                if f.j.get('ctor'):
                    args = [mk('p', p['n']) for p in f.params[:-1]] + [DATA]
                    outs = I.run(f, args, this=THIS)
                else:
                    outs = I.run(f, [O, DATA])
                for o in rets(outs):
                    sz = rets(Interp(P, Lay()).run(d['size'], [THIS], st=o.st.fork()))
                    for z in sz:
                        for fc, total in cases(z.st.facts, z.val):
                            st = z.st.fork()
                            st.facts = fc
                            groups, miss = [], []
                            for nm, f2, ptr, ext, al in regions(P, R, key, f, st, rec, DATA, fl):
                                for p_, v_ in list(f2.lit.items()):
                                    if fc.eval(p_) not in (None, v_):
                                        break
                                else:
                                    pl = place(ptr) if ptr is not None else None
                                    if pl is None or pl[0] is not DATA:
                                        miss.append((nm, pl, ptr))
                                    else:
                                        groups.append((nm, pl[1], ext, al))
                            for nm, pl, ptr in miss:
                                # a member the function never touched keeps its old value
                                cond = optional(P, rec, fc)
                                un = ptr is None or ptr.op == 'i' or ptr.op == 'c' or ptr.op == 'fv'
                                R.verdict(True if cond else False if un and groups else None if groups else True, '%s:%s:placed' % (key, nm), f.loc, '%s is not given memory' % nm)
                            fit(R, key, f.loc, fc, groups, total, tab)
                n += 1
            except (Undecided, RecursionError, KeyError) as e:
                R.und(key, f.loc, repr(e)[:200])
    R.floor('workspace layouts', n, 3)
    return subj


def optional(P, rec, fc):
    """The residual-only system has no matrix by design."""
    return any(t.op == 'eq0' and not v and 'residual_only' in show(t) for t, v in fc.lit.items())


def owned(P, R, subj, tab):
    """Methods of a workspace that point its members into storage of its own."""
    for rec, d in sorted(subj.items()):
        if not rec.startswith('conex::'):
            continue
        fl = fields(P, rec)
        if not any(fd['ty'].get('r') == 'std::vector' for fd in fl):
            continue
        for f in P.fns.values():
            if f.body is None or f.rec != rec or f.j.get('ctor') or f.short in ('SizeOf', 'Initialize', 'print') or f.short.startswith(('operator', '~')):
                continue
            key = '%s:%s' % (rec.replace('conex::', ''), f.short)
            try:
                for o in rets(Interp(P, Lay()).run(f, None, this=THIS)):
                    vecs = [mk('f', THIS, fd['n']) for fd in fl if fd['ty'].get('r') == 'std::vector']
                    lens = [o.st.read(mk('f', L, '#n')) for L in vecs]
                    members = [(fd['n'], o.st.read(mk('f', THIS, fd['n'])), o.st.read(mk('f', THIS, NUM[fd['n']])) if fd['n'] in NUM else ONE)
                               for fd in fl if fd['ty']['k'] == 'ptr']
                    # one world per combination of the conditions
                    for fc, tup in cases(o.st.facts, mk('call', 'tuple', *(lens + [x for m in members for x in m[1:]]))):
                        vals = list(tup.a[1:])
                        ln, rest = vals[:len(vecs)], vals[len(vecs):]
                        for L, n in zip(vecs, ln):
                            regs = []
                            for i, m in enumerate(members):
                                pl = place(rest[2 * i])
                                if pl and pl[0].op == '&' and pl[0].a[0] is L:
                                    regs.append((m[0], pl[1], rest[2 * i + 1], False))
                            if regs:
                                fit(R, key, f.loc, fc, regs, n, tab, aligned_total=False)
            except (Undecided, RecursionError, KeyError) as e:
                R.und(key, f.loc, repr(e)[:200])


class Calls(Lay):
    """Records the calls of the placing and the measuring functions on elements of a list."""
    def __init__(self):
        super().__init__()
        self.log, self.backs = [], []

    def opaque(self, fn):
        return fn.short in (ALIGN, 'SizeOf', 'Initialize')

    def on_call(self, I, st, node, name, obj, args):
        if name.split('::')[-1] in ('Initialize', 'SizeOf'):
            self.log.append((name.split('::')[-1], list(args), None, st.loops))


def target(v):
    """The object a reference or a pointer argument stands for."""
    if v.op == '&':
        return v.a[0]
    if v.op == 'padd':
        return mk('e', mk('pt', v.a[0]), v.a[1])
    if v.op == 'p':
        return mk('pt', v)
    if v.op in LOCOPS:
        return v
    return None


def lists(P, R):
    """Initialize / SizeOf of a list of workspaces."""
    n = 0
    for f in P.fns.values():
        if f.body is None or f.short not in ('Initialize', 'SizeOf') or not P.is_repo(f) or not f.params:
            continue
        if not f.tu.t(f.params[0]['t'])['s'].replace('const ', '').startswith('std::vector<'):
            continue
        n += 1
        key = 'list:' + f.short
        X = mk('pt', O)
        try:
            cl = Calls()
            outs = rets(Interp(P, cl).run(f, [O, DATA] if f.short == 'Initialize' else [X]))
        except (Undecided, RecursionError) as e:
            R.und(key, f.loc, str(e))
            continue
        size = mk('i', mk('f', X, '#n'))
        # the measured element of an iteration
        def elem(v):
            t = target(v)
            return t.a[1] if t is not None and t.op == 'e' and t.a[0] is X else None
        general = [e for e in cl.log if e[3] and any(x.op == 'ix' for x in subterms(e[1][0]))]
        what = 'Initialize' if f.short == 'Initialize' else 'SizeOf'
        seen = [e for e in general if e[0] == what]
        if f.short == 'SizeOf':
            vs = [v for o in outs for _, v in cases(o.st.facts, noconv(o.val))]
            if all(not any(x.op == 'lp' for x in subterms(v)) for v in vs) and \
                    all(isc(v) or v.op == 'call' and str(v.a[0]).endswith('SizeOf') or not any(x.op in ('call', 'out') for x in subterms(v)) for v in vs):
                R.bad(key + ':sum', f.loc, 'the result (%s) is not the sum of the sizes of all workspaces' % show(vs[-1])[:80])
                continue
        if not seen:
            R.und(key, f.loc, 'no call of %s on an element recognised' % what)
            continue
        rng = [span(cl, elem(e[1][0])) for e in seen if elem(e[1][0]) is not None]
        good = [r for r in rng if r]
        v = None
        if good:
            v = all(r[0] is ZERO and equal(outs[0].st.facts, noconv(r[1]), sub(size, ONE)) for r in good)
            v = True if v is True else False if all(isc(r[0]) and cval(r[0]) > 0 or isc(sub(noconv(r[1]), size)) for r in good) else None
        R.verdict(v, key + ':all', f.loc, 'elements %s of a list of %s are treated' % (
            [(show(r[0])[:40], show(r[1])[:40]) for r in good][:1], show(size)))
        # the advance
        acc = [(k, e) for k, e in cl.phi.items() if e and k[1].op == 'var']
        ok = None
        for (lid, loc), (first, backs) in acc:
            lp = mk('lp', lid, loc)
            if f.short == 'SizeOf' and any(o.val is lp for o in outs) and any(not any(x is lp for x in subterms(b)) for b in backs):
                ok = False
                continue
            ds = []
            for b in backs:
                pl = place(b) if f.short == 'Initialize' else (ZERO, sub(b, lp))
                if f.short == 'Initialize':
                    if pl is None or pl[0] is not lp:
                        ds = None
                        break
                    d = pl[1]
                else:
                    d = pl[1]
                ds.append(noconv(d))
            if ds is None or any(any(x is lp for x in subterms(d)) for d in ds if d.op != 'call'):
                continue
            if f.short == 'Initialize' and first is not DATA:
                R.verdict(False if place(first) and place(first)[0] is DATA and isc(place(first)[1]) and cval(place(first)[1]) < 0 else None, key + ':start', f.loc, 'starts at %s' % show(first)[:60])
            if f.short == 'SizeOf' and not isc(first):
                continue
            for d in ds:
                if isc(d):
                    good = False
                elif d.op == 'call' and str(d.a[0]).endswith('SizeOf'):
                    # the element measured is the one of this iteration
                    idx = [x for x in subterms(d) if x.op == 'ix']
                    m = [elem(e[1][0]) for e in cl.log if e[0] == 'SizeOf' and e[3]]
                    good = True if idx else False if m and all(x is not None and isc(x) for x in m) else None
                    if f.short == 'Initialize':
                        i0 = [elem(e[1][0]) for e in seen]
                        good = True if m and i0 and all(a is not None and a is b for a in m for b in i0) else \
                            False if m and i0 and all(a is not None and b is not None and a is not b and (isc(sub(a, b)) or isc(a)) for a in m for b in i0) else None
                else:
                    good = None
                ok = good if ok is None or good is False else ok
            if f.short == 'SizeOf' and isc(first) and cval(first) < 0:
                ok = False
            if f.short == 'SizeOf':
                rv = [noconv(sub(o.val, lp)) for o in outs]
                if any(isc(r) and cval(r) < 0 for r in rv):
                    ok = False
                elif not all(isc(r) for r in rv):
                    ok = None if ok else ok
        R.verdict(ok, key + ':advance', f.loc, 'the memory does not advance by the size of the workspace of the same iteration' if f.short == 'Initialize'
                  else 'the result is not the sum of the sizes of all workspaces')
        if f.short == 'Initialize':
            bs = [noconv_ptr(e[1][1]) for e in seen if len(e[1]) > 1]
            v = True if bs and all(b is not None and b.op == 'lp' or b is DATA for b in bs) else None
            R.verdict(v, key + ':cursor', f.loc, 'workspace placed elsewhere than at the cursor')
    R.count('lists of workspaces', n)


def noconv_ptr(v):
    return v if v.op in ('lp', 'p') else None


def triangular(P, R, tab):
    """Blocks of the sparse matrix."""
    init = [f for f in P.fns.values() if f.body is not None and f.short == 'Initialize' and f.params and 'TriangularMatrixWorkspace' in f.tu.t(f.params[0]['t'])['s']]
    size = [f for f in P.fns.values() if f.body is not None and f.short == 'SizeOf' and f.params and 'TriangularMatrixWorkspace' in f.tu.t(f.params[0]['t'])['s']]
    if not init or not size:
        R.und('blocks', '', 'Initialize or SizeOf of the sparse matrix not found')
        return
    f = init[0]
    key = 'blocks'
    cl = Lay()
    try:
        Interp(P, cl).run(f, [O, DATA])
    except (Undecided, RecursionError) as e:
        R.und(key, f.loc, str(e))
        return
    gen = [m for m in cl.maps if m[3] and any(x.op == 'lp' for x in subterms(m[0]))]
    lids = {m[3][-1][0] for m in gen}
    if len(lids) != 1:
        R.und(key, f.loc, 'the loop that places the blocks is not recognised')
        return
    lid = lids.pop()
    cur = [(k, e) for k, e in cl.phi.items() if k[0] == lid and e and place(e[0]) and place(e[0])[0] is DATA]
    if len(cur) != 1:
        R.und(key, f.loc, 'cursor not recognised')
        return
    (_, loc), (first, backs) = cur[0]
    lp = mk('lp', lid, loc)
    adv = []
    for b in backs:
        pl = place(b)
        adv.append(noconv(pl[1]) if pl and pl[0] is lp else None)
    if len(set(adv)) != 1 or adv[0] is None:
        R.und(key, f.loc, 'the advance of the cursor is not recognised')
        return
    regs, ff = [], None
    for ptr, r, c, lps, fc in gen:
        pl = place(ptr)
        if pl is None or pl[0] is not lp:
            R.und(key, f.loc, 'block placed at %s' % show(ptr)[:80])
            return
        regs.append((pl[1], mul(r, c)))
        ff = fc
    regs = list(dict.fromkeys(regs))
    ix = cl.ranges[lid][0]
    adv0 = adv[0]
    named = [('block%d' % i, noconv(noix(o)), noconv(noix(n)), True) for i, (o, n) in enumerate(regs)]
    fit(R, key, f.loc, ff, named, noix(adv0), tab)
    fo = place(first)[1]
    R.verdict(True if fo is ZERO else False if isc(fo) and cval(fo) < 0 else None, key + ':start', f.loc)
    # the reported size is the sum of the same advances
    g = size[0]
    cs = Lay()
    try:
        outs = rets(Interp(P, cs).run(g, [mk('pt', O)]))
    except (Undecided, RecursionError) as e:
        R.und(key + ':sum', g.loc, str(e))
        return
    if len(outs) != 1:
        R.und(key + ':sum', g.loc, 'several ways to compute the size')
        return
    per, v = [], outs[0].val
    for _ in range(4):
        ls = [x for x in subterms(v) if x.op == 'lp']
        if len(ls) != 1:
            break
        x = ls[0]
        e = cs.phi.get((x.a[0], x.a[1]))
        if not e or len({*e[1]}) != 1:
            per = None
            break
        d = noconv(sub(e[1][0], x))
        tr = noconv(span_trips(cs, x.a[0]))
        per.append((d, tr))
        v = subst(v, {x: e[0]})
    if per is None or not isc(noconv(v)) or any(t is None for _, t in per):
        R.und(key + ':sum', g.loc, 'the size is not recognised as a sum')
        return
    tot = ZERO
    trips_ = []
    for d, t in per:
        tot = add(tot, noix(d))
        trips_.append(t)
    for d, _ in per:
        if any(x.op == 'lp' for x in subterms(d)):
            R.bad(key + ':sum', g.loc, 'the size is overwritten instead of added to')
            return
    n0 = noconv(span_trips(cl, lid))
    lens = [sz for sz in [n0] + trips_]
    lists_ = {t for t in lens if t.op == 'i' and t.a[0].op == 'f' and t.a[0].a[1] == '#n'}
    R.assumption('TriangularMatrixWorkspace: the lists snodes, separators and supernode_size have the same length')
    ok, env = nonneg(R, State().facts, sub(tot, noix(adv0)), tab)
    if ok is True and not all(t in lists_ for t in lens):
        ok = False if any(isc(sub(t, l)) and cval(sub(t, l)) < 0 for t in trips_ for l in lists_ if t is not l) else None
    R.verdict(ok, key + ':sum', g.loc, 'the reported size per supernode (%s) is smaller than the memory used (%s) (%s)' % (
        show(tot)[:100], show(noix(adv0))[:100], ex(env)))


def noix(t):
    """Values of one iteration, without the iteration: every counter is j, reading a list that the loop does not change."""
    mp = {}
    for x in subterms(t):
        if x.op == 'ix':
            mp[x] = mk('p', 'j')
    t = subst(t, mp) if mp else t
    for _ in range(4):
        mp = {}
        for x in subterms(t):
            k = leaf(x)
            if k and x is not k:
                mp[x] = k
        if not mp:
            return t
        t = subst(t, mp)
    return t


def leaf(x):
    """supernode_size[j] and the length of separators[j], however they are reached."""
    if x.op in ('i', 'get', 'fv'):
        s = show(x)
        import re
        names = re.findall(r'\b(supernode_size|separators|snodes)\b', s)
        if len(set(names)) == 1 and x.op in ('i', 'get', 'fv'):
            j = any(y.op == 'p' and y.a[0] == 'j' for y in subterms(x))
            num = '#n' in s[-8:] if x.op != 'i' else x.a[0].op == 'f' and x.a[0].a[1] == '#n'
            if j:
                return mk('p', names[0] + ('_n' if num else ''))
    return None


def span_trips(cl, lid):
    from .. import pairs
    return pairs.trips(cl, lid) if lid in cl.ranges else None


class Mem(Lay):
    def __init__(self, want):
        super().__init__()
        self.at, self.wrapped = [], []

    def opaque(self, fn):
        return fn.short in ('SizeOf', 'Initialize')

    def on_call(self, I, st, node, name, obj, args):
        short = name.split('::')[-1]
        if short == 'Initialize' and len(args) == 2:
            self.at.append((list(args), st.fork()))
        elif short.startswith('Model') and len(args) == 1:
            self.wrapped.append(('wrap', args[0]))
        elif short == 'do_get_workspace' and obj is not None:
            self.wrapped.append(('own', obj))


def program(P, R):
    """Memory of a program."""
    fs = [f for f in P.fns.values() if f.body is not None and f.rec == 'conex::Program' and f.short == 'InitializeWorkspace']
    if not fs:
        R.und('program', '', 'InitializeWorkspace not found')
        return
    f = fs[0]
    cl = Mem(None)
    try:
        outs = rets(Interp(P, cl).run(f, this=THIS))
    except (Undecided, RecursionError) as e:
        R.und('program', f.loc, str(e))
        return
    R.count('placements of program memory', len(cl.at))
    R.verdict(True if cl.at else None, 'program:placed', f.loc, 'no placement recognised')
    for args, st in cl.at:
        L, ptr = target(args[0]), place(args[1])
        if L is None or ptr is None or ptr[0].op != '&':
            R.und('program:room', f.loc, 'placement not recognised')
            continue
        B = args[1].a[0] if args[1].op == '&' else None
        D = B.a[0] if B is not None and B.op == 'buf' else None
        if D is None:
            R.und('program:room', f.loc, 'memory not recognised: %s' % show(args[1])[:80])
            continue
        now = st.readagg(L)
        n = st.read(mk('f', L, '#n'))
        rws = dims(st, D)
        oks, why = [], ''
        for fc, rw in cases(st.facts, rws):
            cand = {x for t in [rw] + list(fc.lit) + list(fc.ge) for x in subterms(t) if x.op == 'call' and str(x.a[0]).endswith('SizeOf')}
            cur = [x for x in cand if any(y is now for y in x.a)]
            if not cur:
                free = all(x.op in ('rows', 'cols') for t in list(fc.lit) + list(fc.ge) + [rw] for x in atoms_of(t) if any(y.op in ('rows', 'cols') for z in atoms_of(t) for y in [z]))
                oks.append(False if cand or free else None)
                if not cand:
                    why = 'the memory (%s) is used whatever the reported size of the list is' % show(rw)[:60]
                    continue
                why = 'the memory was measured for another state of the list than the one that is placed'
                continue
            f2 = State().facts
            f2.assume(ge0(cur[0]))
            for t, v in fc.lit.items():
                f2.assume(noconv(t), v)
            for g in fc.ge:
                f2.assume(ge0(noconv(g)))
            d = noconv(sub(rw, cur[0]))
            if prove(f2, d):
                oks.append(True)
            elif isc(d) and cval(d) < 0:
                oks.append(False)
                why = 'the memory is smaller than the reported size of the list'
            elif prove(f2, sub(noconv(cur[0]), rw)) or not any(y is x for y in [noconv(c) for c in cur] for g in f2.ge if g is not noconv(cur[0]) for x in subterms(g)):
                oks.append(False)
                why = 'the memory can be smaller than the reported size of the list (%s)' % show(rw)[:60]
            else:
                oks.append(None)
        ok = False if False in oks else None if None in oks or not oks else True
        R.verdict(ok, 'program:room', f.loc, why)
        # complete list
        eqs = [x for x in subterms(n) if x.op == 'i' and x.a[0].op == 'f' and x.a[0].a[1] == '#n' and 'eqs' in show(x)]
        whole = add(mul(C(2), eqs[0]), C(2)) if eqs else None
        if whole is not None:
            d = sub(n, whole)
            names = {field(a) for k, a in cl.wrapped if k == 'wrap'} | {'own' for k, a in cl.wrapped if k == 'own'}
            missing = [w for w in ('own', 'submatrix_data_', 'stats', 'sys') if w not in names]
            R.verdict(True if d is ZERO and not missing else False if (isc(d) and cval(d) < 0 or not isc(d) and missing) and missing else None, 'program:complete', f.loc,
                      'the list holds %s workspaces; missing: %s' % (show(n)[:60], missing))
        else:
            # appended once per iteration: every way through the loop has to add both
            few = None
            for x in subterms(n):
                e = cl.phi.get((x.a[0], x.a[1])) if x.op == 'lp' else None
                if e and any(isc(w) and cval(w) < 2 for b in e[1] for _, w in cases(State().facts, sub(b, x))):
                    few = x
            if few is not None:
                R.bad('program:complete', f.loc, 'some constraints contribute fewer than two workspaces to the list')
            else:
                R.und('program:complete', f.loc, 'number of workspaces not recognised: %s' % show(n)[:80])


def atoms_of(t):
    if isc(t):
        return []
    if t.op in ('eq0', 'ge0', 'not', 'and', 'or', 'u', 'ite'):
        return [x for a in t.a for x in atoms_of(a)]
    if t.op == 'poly':
        return [BY_ID(i) for m in pdict(t) for i, _ in m]
    return [t]


def field(t):
    while t.op in ('pt', 'i', '&', 'ptrto') and t.a:
        t = t.a[0]
    return t.a[1] if t.op == 'f' else None


def dims(st, D):
    def go(v):
        if v.op == 'ite':
            return mk('ite', v.a[0], go(v.a[1]), go(v.a[2]))
        if v.op == 'Zero' and len(v.a) == 2:
            return mul(v.a[0], v.a[1])
        return mul(v.a[1], v.a[2]) if v.op == 'mat0' else mul(mk('rows', v), mk('cols', v))
    return go(st.read(D))


class Own(Lay):
    def __init__(self):
        super().__init__()
        self.at = []

    def opaque(self, fn):
        return fn.short in ('SizeOf', 'Initialize', 'TriangularMatrixWorkspace')

    def on_call(self, I, st, node, name, obj, args):
        if name.split('::')[-1] == 'Initialize' and len(args) == 2:
            self.at.append((list(args), st.fork()))


def sparse(P, R):
    """Memory of a sparse matrix: its own, and as large as its own workspace."""
    n = 0
    for f in P.fns.values():
        if f.body is None or f.rec != 'conex::SparseTriangularMatrix' or not f.j.get('ctor'):
            continue
        cl = Own()
        try:
            Interp(P, cl).run(f, this=THIS)
        except (Undecided, RecursionError) as e:
            R.und('sparse', f.loc, str(e))
            continue
        n += 1
        for args, st in cl.at:
            W = target(args[0])
            p = args[1]
            D = p.a[0].a[0] if p.op == '&' and p.a[0].op == 'buf' else None
            key = 'sparse:%d' % len(f.params)
            if W is None or D is None:
                R.und(key, f.loc, 'placement not recognised')
                continue
            mine = D
            while mine.op in ('f', 'mat') and mine.a:
                mine = mine.a[0]
            R.verdict(True if mine is THIS else False if mine.op in ('pt', 'p', 'var', 'tmp') else None, key + ':own', f.loc,
                      'the blocks are placed in memory of another object (%s)' % show(D)[:60])
            w = st.readagg(W)
            rw = dims(st, D)
            sz = [x for x in subterms(rw) if x.op == 'call' and str(x.a[0]).endswith('SizeOf')]
            if not sz:
                R.assumption('SparseTriangularMatrix: memory handed in by the caller, or copied with its matrix, has the size of the workspace')
                continue
            v = None
            if any(x.a[1] is w for x in sz):
                d = noconv(sub(rw, [x for x in sz if x.a[1] is w][0]))
                v = True if isc(d) and cval(d) >= 0 else False if isc(d) else None
            elif all(x.a[1].op == 'call' and x.a[1].a[0] == w.a[0] for x in sz if w.op == 'call'):
                v = False if w.op == 'call' else None
            R.verdict(v, key + ':room', f.loc, 'the memory is measured for a different matrix (%s) than the one placed in it (%s)' % (
                show(sz[0].a[1])[:80], show(w)[:80]))
    R.count('constructors of the sparse matrix', n)


def check(P, R):
    tab = table(P, R)
    subj = layouts(P, R, tab)
    owned(P, R, subj, tab)
    lists(P, R)
    triangular(P, R, tab)
    program(P, R)
    sparse(P, R)
