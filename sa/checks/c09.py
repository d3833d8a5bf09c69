from ..util import *
from . import c06
from .c26 import head
from ..front import walk

TECHNIQUE = 'loop dataflow of the iteration counter and symbolic bounds of every access to the recorded statistics'
RULE = ('Every statistic of the core solve is stored at the index given by the iteration counter, which starts at zero, is raised by exactly '
        'one by every pass of the main loop that prepared a step and by none that did not, and has room for max_iterations entries; the stored '
        'value is the 1/sqrt(mu) of the step that was prepared; the recorded number of iterations is the final counter. Reserving room leaves '
        'two regions of that size in one storage. CONEX_GetIterationStats reads entry i, or num_iter + i for negative i, exactly when it lies '
        'between 0 and num_iter - 1, and reports mu = 1/value^2 and that number.')

STATS = 'conex::WorkspaceStats'


def series(loc):
    """(address of the series, index) of an element of sqrt_inv_mu, through conditional addresses."""
    if loc.op == 'lite':
        r = [series(x) for x in loc.a[1:]]
        return r[0] if r and all(x is not None and x[1] is r[0][1] for x in r) else None
    if loc.op == 'e' and len(loc.a) == 2 and field(loc.a[0]) == 'sqrt_inv_mu':
        return loc.a[0], loc.a[1]
    if loc.op == 'pt' and field(loc.a[0]) == 'sqrt_inv_mu':
        return loc.a[0], ZERO
    if loc.op == 'pt' and loc.a[0].op == 'padd' and field(loc.a[0]) == 'sqrt_inv_mu':
        return loc.a[0].a[0], loc.a[0].a[1]
    return None


def field(t):
    while isinstance(t, T) and t.op in ('i', 'pt', 'padd', 'lp', '&') and t.a:
        t = next((y for y in t.a if isinstance(y, T)), None)
    if isinstance(t, T) and t.op in ('f', 'fv'):
        return t.a[1]
    return None


class Solve(c06.Cl):
    def __init__(self, R):
        super().__init__()
        self.R, self.ev, self.loops, self.reserve, self.num, self.mus = R, [], [], [], None, []
        self.at, self.brk, self.where = [], [], ''

    def opaque(self, fn):
        return fn.name == 'conex::Initialize' or (not (fn.name.startswith(STATS) and not fn.name.endswith('::Reserve')) and fn.loc.split(':')[0] not in c06.SRC)

    def on_call(self, I, st, node, name, obj, args):
        super().on_call(I, st, node, name, obj, args)
        if name == STATS + '::Reserve' and obj is not None:
            self.reserve.append((st.facts, args[0] if args else None, obj))
            st.cs['room'] = 'yes'
        elif name == 'conex::SupernodalKKTSolver::Factor':
            st.cs['rec'] = 'none'
        elif name == 'conex::PrepareStep' and I.fr.fn.name == 'conex::Solve' and len(args) == 4:
            aff = st.facts.eval(tobool(st.read(mk('f', args[1], 'affine'))))
            if aff is not True:
                st.cs['rec'] = 'prepared'
                if not I.mute:
                    self.mus.append(st.read(mk('f', args[1], 'inv_sqrt_mu')))

    def on_write(self, I, st, loc, v, node, op):
        super().on_write(I, st, loc, v, node, op)
        s = series(loc)
        if s is None or op == 'out':
            return
        if I.mute:
            st.cs['rec'] = 'twice' if st.cs.get('rec') in ('recorded', 'twice') else 'early' if st.cs.get('rec') == 'none' else 'recorded'
            return
        nums = [l for l in st.store if l.op == 'f' and l.a[1] == 'num_iter']
        num = self.num = nums[0] if len(nums) == 1 else None
        rec = st.cs.get('rec')
        self.at.append((s[1], st.facts, None, (node or {}).get('l') or self.where))
        val = None
        if self.mus:
            if any(m is v or equal(st.facts, m, v) is True for m in self.mus):
                val = True
            elif all(differs(m, v) or equal(st.facts, m, v) is False for m in self.mus):
                val = False
        self.ev.append(('value', val, node, 'stores %s instead of the 1/sqrt(mu) of the step' % show(v)[:80]))
        if st.cs.get('room') is None:
            self.ev.append(('room', False if any(f.name == STATS + '::Reserve' for f in I.P.fns.values()) else None, node, 'stored before room for max_iterations entries was made'))
        self.ev.append(('once', rec != 'recorded' and rec != 'twice', node, 'a second statistic is stored in one pass'))
        st.cs['rec'] = 'twice' if rec in ('recorded', 'twice') else 'early' if rec == 'none' else 'recorded'

    def on_loop_back(self, I, st):
        if st.loops and st.loops[-1][0] in self.main:
            st.cs['last'] = st.cs.get('rec')
            st.cs['rec'] = 'between'

    def on_loop_break(self, I, st, lid):
        super().on_loop_break(I, st, lid)
        if lid in self.main:
            self.brk.append(st.fork())

    def on_loop_done(self, I, lid, ix, trip, entry, modified, backs, exits):
        ks = [l for l in modified if l.op == 'f' and l.a[1] == 'num_iter']
        if len(ks) != 1:
            return
        h = head(I, entry, modified, ix, lid)
        self.loops.append((ks[0], entry, h, list(backs), list(exits), trip))


def leftover(t):
    """A value found in memory: what an earlier solve left there."""
    return t.op in ('i', 'out') or t.op in ('f', 'fv') and field(t) == 'num_iter'


def differs(x, y):
    """Do two values depend on different things, apart from their conditions?"""
    def leaves(t):
        if t.op == 'ite':
            return leaves(t.a[1]) | leaves(t.a[2])
        return {t}
    a, b = leaves(x), leaves(y)
    return not (a & b)


def check(P, R):
    f = c06.core_solve(P)
    cl = Solve(R)
    cl.where = f.loc
    others = [g for g in P.fns.values() if g.body is not None and (g.name == 'conex::Initialize' or g.name.startswith(STATS)) and P.is_repo(g) and
              any(x.get('k') == 'mem' and x.get('f') == 'num_iter' for x in walk(g.body))]

    class TI(Interp):
        pass
    outs = Interp(P, cl).run(f)
    seen = {}

    def obl(key, v, where, why):
        old = seen.get(key)
        if old is None or (old[0] is True and v is not True) or (old[0] is None and v is False):
            seen[key] = (v, where, why)
    for k, v, node, why in cl.ev:
        obl('record:' + k, v, (node or {}).get('l') or f.loc, why)
    if not cl.ev:
        R.und('record', f.loc, 'no store to sqrt_inv_mu recognised in the core solve')
    main = [l for l in cl.loops if any(b.cs.get('last') for b in l[3])]
    if not main and cl.ev:
        R.und('counter', f.loc, 'main loop not recognised')
    for N, entry, h, backs, exits, trip in main:
        start = entry.read(N)
        e = equal(entry.facts, start, ZERO)
        if e is None and leftover(start) and not others:
            e = False
        obl('counter:starts at zero', e, f.loc, 'the counter is %s before the first pass' % show(start)[:60])
        skips = any(b.cs.get('last') == 'none' for b in backs)
        for idx, facts, ix, l in cl.at:
            e = equal(facts, idx, h.read(N))
            if e is None and skips and not any(y is N or y.op == 'lp' for x in [idx] for y in subterms(x)) and idx.op in ('ix', 'poly', 'c'):
                e = False
            obl('record:index', e, l, 'stores at %s while %s entries were recorded' % (show(idx)[:60], show(h.read(N))[:60]))
        for b in [x for x in backs] + cl.brk:
            d = sub(b.read(N), h.read(N))
            rec = b.cs.get('last') if b in backs else b.cs.get('rec')
            want = {None: ZERO, 'between': ZERO, 'none': ZERO, 'recorded': ONE}.get(rec)
            if rec == 'prepared':
                obl('pass:records', False, f.loc, 'a pass that prepared a step goes on without a statistic')
            elif rec in ('twice', 'early'):
                obl('pass:records', False, f.loc, 'a pass %s' % ('records two statistics' if rec == 'twice' else 'records a statistic before a step was prepared'))
            elif want is not None:
                obl('pass:records', True, f.loc, '')
                e = equal(b.facts, d, want)
                obl('counter:%s' % ('unchanged' if want is ZERO else 'one per pass'), e, f.loc,
                    'a pass that %s raises the counter by %s' % ('records a statistic' if want is ONE else 'records none', show(d)[:40]))
    # room
    for fc, n, obj in cl.reserve:
        want = [x for x in subterms(n) if c06.option(x, 'max_iterations')] if n is not None else []
        e = None
        if n is not None and want:
            e = fc.eval(ge0(sub(n, want[0])))
            e = True if e else False if e is False or simple(sub(n, want[0])) else None
        elif n is not None and simple(n):
            e = False
        obl('room', e, f.loc, 'room is made for %s entries, not for max_iterations' % (show(n)[:60] if n is not None else '?'))
    # the reported number
    prog = mk('pt', mk('p', f.params[0]['n']))
    loc = mk('f', mk('f', prog, 'status_'), 'num_iterations')
    for o in rets(outs):
        if o.st.cs.get('exit') is None or cl.num is None:
            continue
        x, y = o.st.read(loc), o.st.read(cl.num)
        e = True if x is y else equal(o.st.facts, x, y)
        if e is None and o.st.facts.eval(tobool(o.val)) is False and isc(x):
            continue
        obl('number of iterations', e if e is not None or not differs(x, y) else False, f.loc, 'the status says %s, the counter %s' % (show(x)[:60], show(y)[:60]))

    # ---- making room
    for g in [g for g in P.fns.values() if g.name == STATS + '::Reserve' and g.body is not None]:
        this = mk('pt', mk('p', 'this'))
        n = mk('p', g.params[0]['n'])
        fl = lambda st, x: st.read(mk('f', this, x))
        for o in rets(Interp(P, Client()).run(g)):
            st = o.st
            for fc, (cap, qa, qb, size), _ in split(st.facts, (fl(st, 'max_iter_'), fl(st, 'sqrt_inv_mu'), fl(st, 'norm_inf_d'), st.read(mk('f', mk('f', this, 'storage_'), '#n')))):
                e = fc.eval(ge0(sub(cap, n)))
                obl('reserve:capacity', True if e else False if e is False or simple(cap) and not refutes(fc, cap, n) else None, g.loc, 'room for %s entries is recorded when %s were asked for' % (show(cap)[:40], show(n)))
                old = mk('i', mk('f', this, 'max_iter_'))
                if cap is old:
                    continue
                offs = [offset(qa, 'storage_'), offset(qb, 'storage_')]
                if any(x is None for x in offs):
                    moved = [qa, qb]
                    for s, x in zip(('sqrt_inv_mu', 'norm_inf_d'), moved):
                        if x is mk('i', mk('f', this, s)):
                            obl('reserve:regions', False, g.loc, '%s keeps its old region when the recorded room grows' % s)
                        else:
                            obl('reserve:regions', None, g.loc, 'address %s not recognised' % show(x)[:60])
                    continue
                plain = lambda t: subst(t, {x: x.a[0] for x in subterms(t) if x.op == 'u'})
                size, offs = plain(size), [plain(x) for x in offs]
                g2 = fc.copy()
                g2.assume(ge0(cap), True)
                for a_, b_ in ((offs[0], offs[1]),):
                    inside = [sub(size, add(x, cap)) for x in offs]
                    apart = sub(b_, add(a_, cap)), sub(a_, add(b_, cap))
                    e = all(g2.eval(ge0(x)) is True for x in inside + offs)
                    fin = all(simple(x) for x in inside)
                    obl('reserve:inside', True if e else False if fin else None, g.loc, 'a region of %s entries does not fit into a storage of %s' % (show(cap)[:30], show(size)[:40]))
                    e = any(g2.eval(ge0(x)) is True for x in apart)
                    obl('reserve:apart', True if e else False if all(simple(x) for x in apart) else None, g.loc, 'the regions overlap')

    # ---- the query
    f = api(P, 'CONEX_GetIterationStats')
    out, itn = f.params[1]['n'], mk('p', f.params[2]['n'])
    res = mk('pt', mk('p', out))
    done = False
    muloc, noloc = mk('f', res, 'mu'), mk('f', res, 'iteration_number')
    for o in rets(Interp(P, Client()).run(f)):
        st = o.st
        for fc, (m, no), conds in split(st.facts, (st.read(muloc), st.read(noloc))):
            conds = conds + [c for c, v in st.pc if st is not None and c.op not in ('and', 'or', 'not')]
            nums = {x for c in conds for x in subterms(c) if x.op == 'i' and field(x) == 'num_iter'}
            if m is mk('i', muloc):
                num = next(iter(nums)) if len(nums) == 1 else None
                if num is None:
                    continue
                # refused after looking at the number of entries: the entry must be out of range
                for neg_ in (True, False):
                    g1 = fc.copy()
                    idx = add(num, itn) if neg_ else itn
                    if not g1.assume(ge0(sub(C(-1), itn)), neg_) or not g1.consistent():
                        continue
                    ok = g1.assume(ge0(idx), True) and g1.assume(ge0(sub(sub(num, ONE), idx)), True) and g1.consistent()
                    fin = all(g1.eval(c) is not None for c in conds) if ok else True
                    obl('query:accepts', True if not ok else False if fin else None, f.loc, 'iteration %s is refused although it was recorded' % ('num_iter + i' if neg_ else 'i'))
                continue
            s = [x for x in subterms(m) if x.op == 'i' and series(x.a[0]) is not None]
            if not s:
                obl('query:mu', None, f.loc, 'mu = %s' % show(m)[:80])
                continue
            done = True
            s = s[0]
            idx = series(s.a[0])[1]
            want = inv(mul(s, s))
            obl('query:mu', True if m is want or equal(fc, m, want) else False if sameatoms(m, s) else None, f.loc, 'mu is reported as %s' % show(m)[:80])
            obl('query:number', equal(fc, no, idx), f.loc, 'entry %s is reported as iteration %s' % (show(idx)[:40], show(no)[:40]))
            nums |= {x for x in subterms(idx) if x.op == 'i' and field(x) == 'num_iter'}
            obl('query:lower', decided(fc, ge0(idx), idx), f.loc, 'entry %s may be negative' % show(idx)[:60])
            if len(nums) == 1:
                num = next(iter(nums))
                up = sub(sub(num, ONE), idx)
                obl('query:upper', decided(fc, ge0(up), up), f.loc, 'entry %s may be beyond the recorded ones' % show(idx)[:60])
                for neg_ in (True, False):
                    f3 = fc.copy()
                    if not f3.assume(ge0(sub(C(-1), itn)), neg_) or not f3.consistent():
                        continue
                    obl('query:entry', equal(f3, idx, add(num, itn) if neg_ else itn), f.loc, 'entry %s is read for a %s number' % (show(idx)[:40], 'negative' if neg_ else 'non-negative'))
            else:
                obl('query:upper', False if simple(idx) and not nums else None, f.loc, 'entry %s is read without comparing it with the number of recorded ones' % show(idx)[:60])
    if not done:
        R.und('query', f.loc, 'no path of CONEX_GetIterationStats writes the result in a recognised way')
    for k, (v, where, why) in sorted(seen.items()):
        R.verdict(v, k, where, why)
    R.floor('facts about statistics', len(seen), 5)


def split(facts, vals, limit=400):
    """Cases of several values by the atomic conditions they contain: [(facts, values, atoms decided)]."""
    out, todo = [], [(facts, tuple(vals), [])]
    while todo:
        f, vs, seen = todo.pop()
        c = None
        for v in vs:
            for x in subterms(v):
                if x.op == 'ite' and not any(y.op == 'ite' for y in subterms(x.a[0])):
                    c = x.a[0]
                    break
            if c is not None:
                break
        if c is None or len(out) + len(todo) > limit:
            out.append((f, vs, seen))
            continue
        e = f.eval(c)
        if e is None:
            at = next((y for y in atoms(c) if f.eval(y) is None), None)
            if at is None:
                out.append((f, vs, seen))
                continue
            for val in (True, False):
                f2 = f.copy()
                if f2.assume(at, val) and f2.consistent():
                    todo.append((f2, vs, seen + [at]))
            continue
        mp = lambda v: {x: (x.a[1] if e else x.a[2]) for x in subterms(v) if x.op == 'ite' and x.a[0] is c}
        ws = []
        for v in vs:
            m = mp(v)
            while m:
                v = subst(v, m)
                m = mp(v)
            ws.append(v)
        todo.append((f, tuple(ws), seen + [y for y in atoms(c) if y not in seen]))
    return out


def atoms(c):
    if c.op in ('and', 'or', 'not'):
        return [y for x in c.a for y in atoms(x)]
    return [c]


def decided(fc, c, t):
    e = fc.eval(c)
    return True if e is True else False if simple(t) else None


def sameatoms(m, s):
    return all(x.op in ('poly', 'inv', 'c') or x is s or any(y is x for y in subterms(s)) for x in subterms(m))


def refutes(fc, cap, n):
    return fc.eval(ge0(sub(cap, n))) is True


def offset(p, store):
    """Entries from the start of the storage vector."""
    o = ZERO
    while True:
        if p.op == 'padd':
            o, p = add(o, p.a[1]), p.a[0]
        elif p.op == '&' and p.a[0].op == 'e' and isinstance(p.a[0].a[1], T):
            o, p = add(o, p.a[0].a[1]), mk('&', mk('pt', p.a[0].a[0])) if False else p.a[0].a[0]
        else:
            break
    return o if any(x.op in ('f', 'fv') and x.a[1] == store for x in subterms(p)) else None
