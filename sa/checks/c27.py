from ..util import *
from ..engine import LOCOPS
from .. import pairs

TECHNIQUE = 'loop dataflow with symbolic indices: every write into the sparse KKT storage compared with the clique entry its labels name'
RULE = ('In SupernodalAssemblerBase::UpdateBlocks every value stored in a block of the sparse KKT matrix is, or adds, the entry of '
        'the clique matrix named by the row label and the column label of the stored position (zero for a fill-in label), '
        'assignment happens only in blocks marked for assignment, every block and every entry of it is visited, after the '
        'constraint wrote its matrix; the constraint writes in place only when its labels are 0..m-1. The labels, the blocks and '
        'the constraint that are bound together belong to one index of the elimination order, RelabelCliques reads the variables '
        'of that same clique, and assembly runs over all cliques from the last to the first. The addresses of the entries between '
        'separators are stored in the order in which they are used and name the entry of their two variables.')

B = 'conex::SupernodalAssemblerBase::'
K = 'conex::SupernodalKKTSolver::'
BLOCKS = ('diag', 'off_diag', 'scatter_block')


def element(t, names):
    """(list, index, term) of the innermost element of one of the lists that t goes through."""
    for x in subterms(t):
        if x.op == 'e' and len(x.a) == 2 and x.a[0].op == 'f' and x.a[0].a[1] in names:
            return x.a[0].a[1], x.a[1], x
    return None


def owned(f):
    return f.loc.startswith(('conex/supernodal_assembler', 'conex/supernodal_solver.h'))


class Trip(Client):
    by_value = True

    def __init__(self):
        self.ranges, self.back, self.brk = {}, [], []

    def on_loop_done(self, I, lid, ix, trip, entry, modified, backs, exits):
        self.ranges[lid] = (ix, trip, entry, exits)

    def on_loop_break(self, I, st, lid):
        self.brk.append(lid)


def span(cl, t, depth=0):
    """(first, last) value of an index expression over the loops it depends on, or None.  One counter only."""
    ixs = {x for x in subterms(t) if x.op == 'ix'}
    if len(ixs) != 1:
        return None
    ix = next(iter(ixs))
    lid = ix.a[0]
    T_ = ix.a[1] if len(ix.a) > 1 else pairs.trips(cl, lid) if lid in cl.ranges else None
    if T_ is None:
        return None
    a, z = subst(t, {ix: ZERO}), subst(t, {ix: sub(T_, ONE)})
    d = sub(subst(t, {ix: ONE}), a)
    if not isc(d) or abs(cval(d)) != 1:
        return None
    return ((a, z) if cval(d) == 1 else (z, a)) + (cval(d),)


def un(t):
    mp = {x: x.a[0] for x in subterms(t) if x.op in ('u', 'trunc') and len(x.a) == 1}
    for _ in range(3):
        t = subst(t, mp) if mp else t
    return t


# ---------------------------------------------------------------- the blocks
class Upd(Trip):
    def __init__(self):
        super().__init__()
        self.ev, self.unk, self.wl = [], [], set()

    def opaque(self, fn):
        return not owned(fn)

    def call(self, I, st, node, name, obj, args):
        if name.endswith('::SetDenseData'):
            st.cs['fresh'] = min(st.cs.get('fresh', 0) + 1, 2)
            return [(st, mk('void'))]

    def on_write(self, I, st, loc, val, node, op):
        e = element(loc, BLOCKS)
        if e is None or loc.op == 'f':
            if e is None and root(loc).op not in ('var', 'tmp') and not I.mute:
                self.unk.append(loc)
            return
        self.wl |= {l[0] for l in st.loops}
        if I.mute:
            return
        st.cs['w %d' % st.loops[-1][0] if st.loops else 'w'] = 1
        self.ev.append((st.fork(), e, loc, val, I.prev, op, st.loops, I.fr.fn.loc))

    def on_loop_back(self, I, st):
        lid = st.loops[-1][0]
        wrote = st.cs.pop('w %d' % lid, 0)
        if wrote and len(st.loops) > 1:
            st.cs['w %d' % st.loops[-2][0]] = 1
        if not I.mute:
            self.back.append((lid, wrote, st.fork(), I.fr.fn.loc))

    def loop_exit(self, I, st, lid, s):
        # leaving a loop over the entries: the block was treated, even if it has none
        if lid in self.wl and st.loops:
            st.cs['w %d' % st.loops[-1][0]] = 1


def label(t, E, names):
    """index k when t reads label k of block E through one of the given pointer fields."""
    t = strip_int(t)
    if t.op != 'i':
        return None
    l = t.a[0]
    k = ZERO
    if l.op == 'e' and len(l.a) == 2:
        l, k = l.a[0], l.a[1]
    if l.op == 'pt' and l.a[0].op == 'i':
        f = l.a[0].a[0]
        if f.op == 'f' and f.a[0] is E and f.a[1] in names:
            return k
        return False if f.op == 'f' and f.a[1] in ('row_data', 'col_data', 'var_data') else None
    return None


def entry(t):
    """(i, j) when t is entry (i, j) of the clique matrix."""
    t = strip_int(t)
    if t.op == 'i' and t.a[0].op == 'e' and len(t.a[0].a) == 3 and 'submatrix_data_' in show(t.a[0].a[0]):
        return t.a[0].a[1], t.a[0].a[2]
    if t.op == 'get' and len(t.a) == 4 and t.a[1] == 'e' and 'submatrix_data_' in show(t.a[0]):
        return t.a[2], t.a[3]
    return None


def field(st, E, n):
    return st.read(mk('f', E, n))


def position(loc, E):
    """('mat', x, y) / ('ptr', c)"""
    if loc.op == 'e' and len(loc.a) == 3 and loc.a[0].op == 'mat':
        d = loc.a[0].a[0]
        if d.op == 'i' and d.a[0].op == 'f' and d.a[0].a[0] is E and d.a[0].a[1] == 'data':
            return 'mat', loc.a[1], loc.a[2]
    if loc.op == 'pt' and loc.a[0].op == 'i':
        l = loc.a[0].a[0]
        k = ZERO
        if l.op == 'e' and len(l.a) == 2:
            l, k = l.a[0], l.a[1]
        if l.op == 'pt' and l.a[0].op == 'i' and l.a[0].a[0].op == 'f' and l.a[0].a[0].a[0] is E and l.a[0].a[0].a[1] == 'data_pointers':
            return 'ptr', k
    return None


def refuted(facts, conds):
    """The conditions cannot hold together."""
    f = facts.copy()
    for b in conds:
        if f.eval(b) is False or not f.assume(b, True):
            return True
    for k, v in list(f.lit.items()):
        if k.op in ('or', 'and', 'not'):
            g = f.copy()
            g.lit.pop(k, None)
            if g.eval(k) is (not v):
                return True
    return not f.consistent()


def negative(f, t):
    return f.eval(ge0(sub(neg(t), ONE))) is True


def update(P, R):
    fs = [f for f in P.named(B + 'UpdateBlocks') if f.body is not None]
    if not fs:
        R.broken.append('UpdateBlocks not found')
        return
    f = fs[0]
    cl = Upd()
    try:
        outs = Interp(P, cl).run(f)
    except Undecided as e:
        R.und('update', f.loc, str(e))
        return
    direct = mk('f', mk('pt', mk('p', 'this')), 'direct_update')
    n = 0
    writers = {}
    for st, (lst, idx, E), loc, val, prev, op, loops, where in cl.ev:
        key = 'update:' + lst
        fr = st.cs.get('fresh', 0)
        R.verdict(fr == 1, key + ':after the constraint', where, 'the blocks are written %s' % ('before the constraint computed its matrix' if fr == 0 else 'after the matrix was computed twice'))
        isdirect = None
        d = st.read(direct)
        e = st.facts.eval(tobool(d))
        isdirect = e
        d_assign = st.facts.eval(tobool(field(st, E, 'assign')))
        p = position(loc, E)
        if op == 'setZero' or p is None:
            whole = loc.op == 'mat'
            if val.op in ('Zero', 'Constant') or op == 'setZero':
                if isdirect is True:
                    R.verdict(lst == 'off_diag' and d_assign is True, key + ':fill-in', where, 'a block that receives entries of other cliques is overwritten with zero')
                else:
                    R.und(key + ':zero', where, 'zeroed')
            else:
                R.und(key + ':' + op, where, 'store not recognised: %s' % show(loc)[:100])
            continue
        if isdirect is True:
            R.verdict(None, key + ':direct', where, 'entry written although the constraint updates in place')
            continue
        if p[0] == 'mat':
            x, y = p[1], p[2]
        else:
            x = y = None
        writers.setdefault(loops[-1][0] if loops else None, []).append((lst, idx, p, st, loops, where))
        adds = any(z is prev for z in subterms(val))
        delta = sub(val, prev) if adds else val
        if any(z is prev for z in subterms(delta)):
            R.und(key + ':form', where, show(val)[:100])
            continue
        # assignment only to assigned blocks, addition only to the others
        if not adds:
            R.verdict(True if d_assign is True else False if lst == 'scatter_block' or d_assign is False else False if d_assign is None else None,
                      key + ':assigned', where, 'overwrites an entry that other cliques contribute to')
        else:
            R.verdict(True if lst == 'scatter_block' or d_assign is False else False, key + ':added', where, 'adds to a block that is not cleared first')
        rn, cn = (('var_data',), ('var_data',)) if lst == 'diag' else (('row_data',), ('col_data',))
        for g, v in cases(st.facts, delta):
            n += 1
            ij = entry(v)
            if v is ZERO:
                lab = [z for z in labels(E, val)]
                ok = refuted(g, [ge0(z) for z in lab])
                R.verdict(True if ok else None if not lab else False, key + ':fill-in value', where, 'the entry of two variables of the clique is dropped')
                continue
            if ij is None:
                R.und(key + ':value', where, show(v)[:120])
                continue
            i, j = ij
            a = (label(i, E, rn), label(j, E, cn))
            b = (label(j, E, rn), label(i, E, cn))
            if p[0] == 'mat':
                oks = [s for s in (a, b) if s[0] not in (None, False) and s[1] not in (None, False) and equal(g, s[0], x) is True and equal(g, s[1], y) is True]
                known = all(label(z, E, ('row_data', 'col_data', 'var_data')) is not None for z in (i, j))
                R.verdict(True if oks else False if known else None, key + ':labels', where,
                          'entry (%s,%s) of the block receives clique entry (%s,%s)' % tuple(show(z)[-60:] for z in (x, y, i, j)))
            else:
                known = all(label(z, E, ('row_data', 'col_data')) is not None for z in (i, j))
                oks = [s for s in (a, b) if s[0] not in (None, False) and s[1] not in (None, False)]
                R.verdict(True if oks else False if known else None, key + ':labels', where, 'clique entry (%s,%s)' % (show(i)[-60:], show(j)[-60:]))
            # fill-in labels never index the clique matrix; only its lower triangle is stored
            for z in (i, j):
                R.verdict(True if g.eval(ge0(z)) is True else False if label(z, E, ('row_data', 'col_data', 'var_data')) is not None else None, key + ':negative label', where, 'a fill-in label indexes the clique matrix')
            R.verdict(True if g.eval(ge0(sub(i, j))) is True or i is j else False if label(i, E, ('row_data', 'col_data', 'var_data')) is not None else None,
                      key + ':lower triangle', where, 'reads an entry above the diagonal of the clique matrix, which is not written')
    R.count('stored values', n)
    # coverage: general iterations of the loops that write, one per entry
    cover(cl, R, f, writers, direct)
    for o in outs:
        if o.kind == 'ret':
            R.verdict(o.st.cs.get('fresh', 0) == 1, 'update:fresh', f.loc, 'the constraint does not compute its matrix once')


def labels(E, t):
    out = []
    for x in subterms(t):
        if x.op == 'i' and label(x, E, ('row_data', 'col_data', 'var_data')) not in (None, False):
            out.append(x)
    return out


def cover(cl, R, f, writers, direct):
    NV = lambda E, n: mk('i', mk('f', E, n))
    good = set()
    for lid, evs in writers.items():
        gen = [e for e in evs if any(x.op == 'ix' and x.a[0] == lid for y in e[2][1:] for x in subterms(y)) and len(e[4]) >= 3]
        if not gen:
            continue
        lst, idx, p, st, loops, where = max(gen, key=lambda e: len({x for y in e[2][1:] for x in subterms(y) if x.op == 'ix'}))
        key = 'cover:' + lst
        Et = None
        for ev in cl.ev:
            if ev[6] == loops and ev[1][0] == lst:
                Et = ev[1][2]
        sp = span(cl, un(idx))
        size = mk('i', mk('f', mk('f', mk('pt', mk('p', 'this')), lst), '#n'))
        R.verdict(None if sp is None else True if sp[0] is ZERO and sp[1] is sub(size, ONE) else False if pure(sp[0]) and pure(sp[1]) else None,
                  key + ':every block', where, 'blocks %s' % (sp and (show(sp[0])[:40], show(sp[1])[:60]),))
        good.add(lst)
        if p[0] == 'ptr':
            continue
        nr, nc = ('num_vars', 'num_vars') if lst == 'diag' else ('num_rows', 'num_cols')
        nr, nc = NV(Et, nr), NV(Et, nc)
        x, y = un(p[1]), un(p[2])
        inner = mk('ix', lid)
        outer = mk('ix', loops[-2][0])
        # the one that does not depend on the inner counter
        dep = lambda t, c: any(z.op == 'ix' and z.a[0] == c.a[0] for z in subterms(t))
        if dep(x, inner) == dep(y, inner):
            R.und(key + ':every entry', where, 'loop form')
            continue
        so = span(cl, y if dep(x, inner) else x)
        no = nc if dep(x, inner) else nr
        # inner: bounds with the outer index fixed
        t = x if dep(x, inner) else y
        ni = nr if dep(x, inner) else nc
        Ti = pairs.trips(cl, lid)
        si = None
        if Ti is not None:
            ix = next(z for z in subterms(t) if z.op == 'ix' and z.a[0] == lid)
            a, z = subst(t, {ix: ZERO}), subst(t, {ix: sub(un(Ti), ONE)})
            d = sub(subst(t, {ix: ONE}), a)
            if isc(d) and abs(cval(d)) == 1:
                si = (a, z) if cval(d) == 1 else (z, a)
        if so is None or si is None:
            R.und(key + ':every entry', where, 'range not recognised')
            continue
        oo = un(so[0]) is ZERO and un(so[1]) is sub(no, ONE)
        o = y if dep(x, inner) else x
        if lst == 'diag':
            ii = un(si[0]) in (ZERO, o) and un(si[1]) is sub(ni, ONE) if dep(x, inner) else un(si[0]) is ZERO and un(si[1]) in (o, sub(ni, ONE))
        else:
            ii = un(si[0]) is ZERO and un(si[1]) is sub(ni, ONE)
        R.verdict(True if oo and ii else False if all(pure(q) for q in (so[0], so[1], si[0], si[1])) else None, key + ':every entry', where,
                  'entries %s..%s by %s..%s' % tuple(show(q)[-50:] for q in (so[0], so[1], si[0], si[1])))
        for lid2, _ in loops:
            R.verdict(lid2 not in cl.brk, key + ':left early', where, 'the loop over the entries can end before the last one')
    for lst in BLOCKS:
        R.verdict(True if lst in good else None if cl.unk or any(e[1][0] == lst for e in cl.ev) else False, 'cover:' + lst, f.loc, 'no loop stores the entries of the %s list' % lst)
    # no entry is skipped
    for lid, wrote, st, where in cl.back:
        if lid in writers and not wrote:
            lst = writers[lid][0][0]
            Et = next(ev[1][2] for ev in cl.ev if ev[6] and ev[6][-1][0] == lid)
            neg_ = any(v and any(label(x, Et, ('row_data', 'col_data', 'var_data')) not in (None, False) for x in subterms(k)) for k, v in st.facts.lit.items())
            fill = any(x.op == 'i' and label(x, Et, ('row_data', 'col_data', 'var_data')) not in (None, False) and negative(st.facts, x) for k in list(st.facts.lit) + list(st.facts.ge) for x in subterms(k))
            adds = all(st2.facts.eval(tobool(field(st2, Et, 'assign'))) is not True for _, _, _, st2, _, _ in writers[lid])
            g = any(entry(x) for k in st.facts.lit for x in subterms(k))
            R.verdict(True if fill and adds else None if g or fill else False, 'cover:' + lst + ':skipped', where, 'an entry of the block is skipped')
    # no block is skipped
    outer = {e[4][0][0] for evs in writers.values() for e in evs if e[4]}
    for lid, wrote, st, where in cl.back:
        if lid in outer and not wrote:
            lst = next(e[0] for evs in writers.values() for e in evs if e[4] and e[4][0][0] == lid)
            Et = [ev[1][2] for ev in cl.ev if ev[6] and ev[6][0][0] == lid]
            fields = ('num_vars',) if lst == 'diag' else ('num_rows', 'num_cols')
            empty = any(st.facts.eval(ge0(neg(st.read(mk('f', E, n))))) is True for E in Et for n in fields)
            R.verdict(True if empty else None, 'cover:' + lst + ':block skipped', where, 'a block that is not empty is skipped')


def pure(t):
    return all(x.op in ('c', 'poly', 'i', 'f', 'e', 'pt', 'p', 'ix', 'u', 'rows', 'cols') for x in subterms(t))


# ------------------------------------------------------------ direct updates
class Bind(Client):
    by_value = True

    def __init__(self, m):
        self.m, self.maps = m, []

    def opaque(self, fn):
        return not owned(fn)

    def on_write(self, I, st, loc, val, node, op):
        if loc.op == 'f' and loc.a[1] == 'G' and not I.mute:
            self.maps.append((st.fork(), val, I.fr.fn.loc))


def bind(P, R):
    from ..engine import State
    for f in [f for f in P.named(B + 'BindDiagonalBlock') if f.body is not None]:
        for m in (1, 2, 3):
            cl = Bind(m)
            I = Interp(P, cl)
            st = State()
            this, data = mk('pt', mk('p', 'this')), mk('pt', mk('p', f.params[0]['n']))
            st.store[mk('f', this, 'direct_update')] = ZERO
            st.store[mk('f', data, 'num_vars')] = C(m)
            try:
                outs = I.run(f, st=st)
            except Undecided as e:
                R.und('in place', f.loc, str(e))
                continue
            lab = [mk('i', mk('e', mk('pt', mk('i', mk('f', data, 'var_data'))), C(k))) for k in range(m)]
            lab[0] = mk('i', mk('pt', mk('i', mk('f', data, 'var_data'))))
            for o in rets(outs):
                for g in worlds(o.st.facts, tobool(o.st.read(mk('f', this, 'direct_update')))):
                    hard = any(x.op in ('lp', 'call', 'h', 'get', 'ix') for q in list(g.lit) + list(g.ge) for x in subterms(q))
                    same = g.eval(eq0(sub(o.st.read(mk('f', this, 'num_variables_')), C(m))))
                    R.verdict(True if same is True else None if hard else False, 'in place:size', f.loc, 'updates in place although the block has another size than the clique')
                    need = [ge0(lab[0])] + [ge0(sub(sub(lab[k], lab[k - 1]), ONE)) for k in range(1, m)]
                    R.verdict(True if all(g.eval(q) is True for q in need) else None if hard else False, 'in place:labels', f.loc,
                              'a clique of %d variables is updated in place although its labels need not be 0..%d' % (m, m - 1))
            for s, val, where in cl.maps:
                flag = s.facts.eval(tobool(s.read(mk('f', this, 'direct_update'))))
                R.verdict(True if flag is True else False if flag is False else None, 'in place:map', where, 'the clique matrix is moved into the block without the in-place flag')
                mp = s.facts
                if val.op == 'map':
                    R.verdict(True if 'data' in show(val.a[0]) else None, 'in place:target', where)
                    for d in val.a[1:3]:
                        hard = any(x.op in ('lp', 'call', 'h', 'get', 'ix') for q in list(s.facts.lit) + list(s.facts.ge) for x in subterms(q))
                        v = equal(s.facts, d, C(m))
                        R.verdict(v if v or not hard else None, 'in place:extent', where, 'mapped with extent %s' % show(d)[:60])
    for f in [f for f in P.named(B + 'BindOffDiagonalBlock') if f.body is not None]:
        cl = Append()
        try:
            outs = Interp(P, cl).run(f)
        except Undecided as e:
            R.und('off-diagonal', f.loc, str(e))
            continue
        stride = mk('i', mk('f', mk('pt', mk('p', f.params[0]['n'])), 'stride'))
        for o in rets(outs):
            got = o.st.cs.get('app', frozenset())
            e = o.st.facts.eval(eq0(add(stride, ONE)))
            want = {True: {'scatter_block'}, False: {'off_diag'}}.get(e)
            R.verdict(None if want is None else got == want, 'off-diagonal:list', f.loc, 'a block %s stride -1 is kept in %s' % ('with' if e else 'without', ', '.join(sorted(got)) or 'no list'))


class Append(Client):
    by_value = True

    def opaque(self, fn):
        return not owned(fn)

    def on_write(self, I, st, loc, val, node, op):
        if loc.op == 'f' and loc.a[1] == '#n' and loc.a[0].op == 'f' and loc.a[0].a[1] in BLOCKS:
            st.cs['app'] = st.cs.get('app', frozenset()) | {loc.a[0].a[1]}


# -------------------------------------------------------- binding by one index
SN, SEP, ORDER = 'supernodes_original_labels', 'separators_original_labels', 'clique_order'


class Tie(Trip):
    def __init__(self):
        super().__init__()
        self.calls = []

    def opaque(self, fn):
        return not owned(fn) or fn.short.startswith('Bind')

    def on_call(self, I, st, node, name, obj, args):
        s = name.split('::')[-1]
        if s in ('BindDiagonalBlock', 'BindOffDiagonalBlock') and not I.mute and args:
            a = args[0]
            t = deref(a)
            fl = {n: st.read(mk('f', t, n)) for n in ('num_vars', 'var_data', 'num_rows', 'row_data', 'num_cols', 'col_data', 'data', 'data_pointers', 'assign', 'stride')}
            kind = 'diagonal' if s == 'BindDiagonalBlock' else 'scatter' if fl['stride'] is C(-1) else 'off_diagonal'
            st.cs['bound'] = st.cs.get('bound', frozenset()) | {kind}
            self.calls.append((st.fork(), kind, obj, fl, st.loops, I.fr.fn.loc))

    def on_loop_back(self, I, st):
        got = st.cs.pop('bound', frozenset())
        if not I.mute:
            self.back.append((st.loops[-1][0], got, st.fork(), st.loops))


def pos_of(t, names):
    """[(list, index)] of the elements of the named lists read by t."""
    return [(x.a[0].a[1], un(x.a[1])) for x in subterms(t) if x.op == 'e' and len(x.a) == 2 and x.a[0].op == 'f' and x.a[0].a[1] in names]


def same(R, key, where, facts, a, b, msg):
    v = equal(facts, a, b)
    R.verdict(v if v is not None else False if pure(a) and pure(b) else None, key, where, msg)


def ties(P, R):
    fs = [f for f in P.named('conex::DoBind') if f.body is not None]
    for f in fs:
        cl = Tie()
        try:
            Interp(P, cl).run(f)
        except Undecided as e:
            R.und('bind', f.loc, str(e))
            continue
        LST = {'diagonal': ([SN], [SN], 'diagonal'), 'off_diagonal': ([SN], [SEP], 'off_diagonal'), 'scatter': ([SEP], [SEP], 'seperator_diagonal')}
        seen = set()
        for st, kind, obj, fl, loops, where in cl.calls:
            key = 'bind:' + kind
            seen.add(kind)
            o = [x for x in pos_of(obj, (ORDER,))]
            if len(o) != 1:
                el = [x for x in subterms(obj) if x.op == 'e' and len(x.a) == 2]
                R.verdict(False if not o and len(el) == 1 and pure(el[0]) else None, key + ':constraint', where, 'the constraint is not the one at this position of the elimination order: %s' % show(obj)[:100])
                continue
            E = o[0][1]
            direct_e = [x for x in subterms(obj) if x.op == 'e' and x.a[0].op in ('pt', 'p') and len(x.a) == 2]
            rows, cols, mem = LST[kind]
            if kind == 'diagonal':
                want = (('num_vars', SN, '#n'), ('var_data', SN, None), ('data', mem, None))
            else:
                want = (('num_rows', rows[0], '#n'), ('row_data', rows[0], None), ('num_cols', cols[0], '#n'), ('col_data', cols[0], None),
                        ('data_pointers' if kind == 'scatter' else 'data', mem, None))
            for fld, lst, _ in want:
                ps = pos_of(fl[fld], (SN, SEP, 'diagonal', 'off_diagonal', 'seperator_diagonal'))
                if len(ps) != 1:
                    R.und(key + ':' + fld, where, show(fl[fld])[:100])
                    continue
                R.verdict(ps[0][0] == lst, key + ':' + fld, where, 'the block takes its %s from %s' % (fld, ps[0][0]))
                same(R, key + ':' + fld + ' index', where, st.facts, ps[0][1], E, '%s of element %s is bound to the constraint of element %s' % (lst, show(ps[0][1])[:40], show(E)[:40]))
            a = fl['assign']
            R.verdict((cval(a) != 0) == (kind != 'scatter') if isc(a) else None, key + ':assign', where,
                      'entries shared by several cliques are assigned' if kind == 'scatter' else 'a block owned by one clique is not assigned')
        R.verdict(True if seen == set(LST) else None, 'bind:kinds', f.loc, 'binds %s' % sorted(seen))
        for lid, got, st, loops in cl.back:
            e = None
            for k in ('diagonal', 'off_diagonal', 'scatter'):
                if k in got:
                    continue
                z = lambda *ns: [ge0(sub(x, ONE)) for x in nonneg(st) if x.op == 'i' and x.a[0].op == 'f' and x.a[0].a[1] == '#n' and pos_of(x, ns)]
                ok = refuted(st.facts, {'diagonal': z(SN), 'off_diagonal': z(SN, SEP), 'scatter': z('seperator_diagonal', SEP)}[k])
                R.verdict(ok, 'bind:%s:skipped' % k, f.loc, 'a %s block that is not empty is not bound' % k)
        if cl.calls:
            st, kind, obj, fl, loops, where = next((x for x in cl.calls if any(y.op == 'ix' for y in subterms(x[2]))), cl.calls[0])
            E = pos_of(obj, (ORDER,))
            sp = span(cl, E[0][1]) if E else None
            ok = None
            if sp:
                ok = True if sp[0] is ZERO and 'eqs' in show(sp[1]) or sp[0] is ZERO and count_of(sp[1]) else False if pure(sp[0]) and pure(sp[1]) else None
            R.verdict(ok, 'bind:every clique', f.loc, 'elements %s' % (sp and (show(sp[0])[:40], show(sp[1])[:60]),))
    R.floor('binding functions', len(fs), 1)


def count_of(t):
    """n - 1 with n the size of a list."""
    t = un(add(t, ONE))
    return t.op == 'i' and t.a[0].op == 'f' and t.a[0].a[1] == '#n'


def nonneg(st):
    out = set()
    for k in list(st.facts.lit) + list(st.facts.ge):
        for x in subterms(k):
            out.add(x)
    return out


class Asm(Trip):
    def __init__(self):
        super().__init__()
        self.calls = []

    def opaque(self, fn):
        return fn.short == 'UpdateBlocks' or not fn.loc.startswith('conex/kkt_solver')

    def call(self, I, st, node, name, obj, args):
        if name.endswith('::UpdateBlocks'):
            st.cs['upd'] = min(st.cs.get('upd', 0) + 1, 2)
            if not I.mute:
                self.calls.append((st.fork(), obj, st.loops))
            return [(st, mk('void'))]

    def on_loop_back(self, I, st):
        n = st.cs.pop('upd', 0)
        if not I.mute:
            self.back.append((st.loops[-1][0], n))


def assemble(P, R):
    fs = [f for f in P.named(K + 'Assemble') if f.body is not None]
    for f in fs:
        name = 'assemble/%d' % len(f.params)
        cl = Asm()
        try:
            Interp(P, cl).run(f)
        except Undecided as e:
            R.und(name, f.loc, str(e))
            continue
        gen = [x for x in cl.calls if any(y.op == 'ix' for y in subterms(x[1]))]
        if not gen:
            R.verdict(None if cl.calls else False, name + ':calls', f.loc, 'no clique is assembled')
            continue
        lids = {x[2][-1][0] for x in cl.calls if x[2]}
        for lid, n in cl.back:
            if lid in lids:
                R.verdict(n == 1, name + ':once', f.loc, 'a clique is assembled %d times' % n)
        st, obj, loops = gen[0]
        E = pos_of(obj, (ORDER,))
        if len(E) != 1:
            R.verdict(None if any(x.op == 'lp' for x in subterms(obj)) else False, name + ':order', f.loc, 'the cliques are not assembled in the elimination order: %s' % show(obj)[:100])
            continue
        R.verdict(bool(pos_of(obj, ('assembler',))) or None, name + ':assembler', f.loc)
        sp = span(cl, E[0][1])
        R.verdict(None if sp is None else sp[2] == -1, name + ':descending', f.loc, 'assigned blocks are overwritten after other cliques added to them')
        R.verdict(None if sp is None else True if sp[0] is ZERO and count_of(sp[1]) else False if pure(sp[1]) else None, name + ':every clique', f.loc, 'elements %s' % (sp and (show(sp[0])[:40], show(sp[1])[:60]),))
        for lid in cl.brk:
            if lid in lids:
                R.bad(name + ':left early', f.loc, 'assembly can end before the last clique')
    R.floor('assembly functions', len(fs), 1)


class Lab(Trip):
    def __init__(self):
        super().__init__()
        self.reads, self.writes = [], []

    def opaque(self, fn):
        return not fn.loc.startswith('conex/kkt_solver')

    def seen(self, I, st, v):
        for x in subterms(v):
            if x.op == 'e' and len(x.a) == 2 and x.a[0].op == 'f' and x.a[0].a[1] in ('cliques_', 'dual_variables_', SN, SEP):
                self.reads.append((st.facts.copy(), x.a[0].a[1], un(x.a[1]), st.loops, st.loops[0][0]))

    def on_write(self, I, st, loc, val, node, op):
        if not I.mute and st.loops:
            if op in ('push_back', 'emplace_back') and loc.op == 'f':
                self.seen(I, st, st.read(mk('e', loc.a[0], sub(val, ONE))))
            elif root(loc).op in ('var', 'tmp'):
                self.seen(I, st, val)
        if loc.op == 'e' and len(loc.a) == 2 and loc.a[0].op == 'f' and loc.a[0].a[1] in (SN, SEP) and not I.mute and st.loops:
            st.cs['lab'] = st.cs.get('lab', frozenset()) | {loc.a[0].a[1]}
            self.writes.append((st.fork(), loc.a[0].a[1], un(loc.a[1]), val, st.loops))

    def on_loop_back(self, I, st):
        if len(st.loops) == 1:
            got = st.cs.pop('lab', frozenset())
            if not I.mute:
                self.back.append((st.loops[-1][0], got))


def relabel(P, R):
    for f in [f for f in P.named(K + 'RelabelCliques') if f.body is not None]:
        cl = Lab()
        try:
            Interp(P, cl).run(f)
        except Undecided as e:
            R.und('relabel', f.loc, str(e))
            continue
        gen = [w for w in cl.writes if any(x.op == 'ix' for x in subterms(w[2]))]
        if not gen:
            R.und('relabel:writes', f.loc, 'no labels written')
            continue
        E = gen[0][2]
        ix = {x for x in subterms(E) if x.op == 'ix'}
        lid = gen[0][4][0][0]
        for st, lst, k, val, loops in gen:
            same(R, 'relabel:' + lst, f.loc, st.facts, k, E, 'the labels of element %s are stored at %s' % (show(E), show(k)))
            # labels of the list are derived from the same list
            ps = {p for p in pos_of(val, (SN, SEP)) if any(x.op == 'ix' for x in subterms(p[1]))}
            for l, k2 in ps:
                R.verdict(l == lst, 'relabel:%s:from' % lst, f.loc, 'labels of %s are computed from %s' % (lst, l))
                same(R, 'relabel:%s:from index' % lst, f.loc, st.facts, k2, k, 'labels of element %s computed from element %s' % (show(k), show(k2)))
        for facts, lst, k, loops, l0 in cl.reads:
            if not any(x in ix for x in subterms(k)):
                if any(x.op == 'ix' for x in subterms(k)) and not lid < min(x.a[0] for x in subterms(k) if x.op == 'ix'):
                    R.und('relabel:read ' + lst, f.loc, show(k)[:80])
                continue
            o = pos_of(k, (ORDER,))
            if lst in ('cliques_', 'dual_variables_'):
                if k.op == 'i' and o:
                    same(R, 'relabel:clique of ' + lst, f.loc, facts, o[0][1], E, 'element %s uses the variables of element %s' % (show(E), show(o[0][1])))
                else:
                    R.verdict(False if pure(k) else None, 'relabel:clique of ' + lst, f.loc, 'element %s of the elimination order uses %s[%s]' % (show(E), lst, show(k)[:60]))
            else:
                same(R, 'relabel:' + lst + ' read', f.loc, facts, k, E, 'element %s' % show(k)[:60])
        sp = span(cl, E)
        R.verdict(None if sp is None else True if sp[0] is ZERO and count_of(sp[1]) else None, 'relabel:every clique', f.loc, 'elements %s' % (sp and (show(sp[0])[:40], show(sp[1])[:60]),))
        for l, got in cl.back:
            if l == lid:
                R.verdict(got == {SN, SEP}, 'relabel:both', f.loc, 'only %s relabelled' % sorted(got))


# ------------------------------------------------- entries between separators
def addresses(P, R):
    fns = [f for n in (B + 'Scatter', 'conex::TriangularMatrixWorkspace::S_S') for f in P.named(n) if f.body is not None]
    n = pairs.compare(P, R, fns, lambda f: any(f is g for g in fns) or owned(f) and f.short != 'GetCoeff' or f.loc.startswith('conex/triangular_matrix_workspace') and 'LookupAddress' not in f.name, 'scatter:')
    R.count('loops over pairs of separators', n)
    for f in [f for f in P.named('conex::TriangularMatrixWorkspace::S_S') if f.body is not None]:
        cl = Rows()
        try:
            Interp(P, cl).run(f)
        except Undecided as e:
            R.und('addresses', f.loc, str(e))
            continue
        for facts, r, cc, where in cl.calls:
            a, b = pairs.entry(r), pairs.entry(cc)
            if a is None or b is None:
                R.und('addresses:row', where, show(r)[:80])
                continue
            d = un(sub(a, b))
            v = facts.eval(ge0(d))
            neg_ = facts.eval(ge0(neg(d)))
            R.verdict(True if v is True else False if neg_ is True and pure(d) else None, 'addresses:row', where, 'the address of an entry above the diagonal is taken, which is not part of the stored triangle')


class Rows(Client):
    by_value = True

    def __init__(self):
        self.calls = []

    def opaque(self, fn):
        return 'LookupAddress' in fn.name or not fn.loc.startswith('conex/triangular_matrix_workspace')

    def on_call(self, I, st, node, name, obj, args):
        if 'LookupAddress' in name and len(args) == 3 and not I.mute:
            self.calls.append((st.facts.copy(), args[1], args[2], I.fr.fn.loc))


class Any(Client):
    by_value = True


def lookup(P, R):
    """The address of the entry of two variables: same supernode -> its diagonal block, otherwise the off-diagonal block
    of the column variable's supernode at the position of the row variable in its separators."""
    fns = [f for f in P.fns.values() if f.short == 'LookupAddress' and f.body is not None and f.loc.startswith('conex/triangular_matrix_workspace') and len(f.params) == 3]
    R.count('entry look-ups', len(fns))
    for f in fns:
        try:
            outs = rets(Interp(P, Any()).run(f))
        except Undecided as e:
            R.und('lookup', f.loc, str(e))
            continue
        o_, r, cc = (mk('p', q['n']) for q in f.params)
        tab = lambda n, k: mk('i', mk('e', mk('f', mk('pt', o_), n), k))
        for o in outs:
            for g, v in cases(o.st.facts, o.val):
                t = deref(v)
                m = element(t, ('diagonal', 'off_diagonal')) if t.op == 'e' and len(t.a) == 3 else None
                if m is None:
                    R.und('lookup:address', f.loc, show(v)[:100])
                    continue
                lst, k, _ = m
                by = {}
                for x in list(subterms(t)) + [z for q in list(g.lit) + list(g.ge) for z in subterms(q)]:
                    if x.op == 'i' and x.a[0].op == 'e' and x.a[0].a[0].op == 'f' and un(x.a[0].a[1]) in (r, cc):
                        by[(x.a[0].a[0].a[1], un(x.a[0].a[1]))] = x
                VS, VP = 'variable_to_supernode_', 'variable_to_supernode_position_'
                sr, sc, pr, pc = by.get((VS, r)), by.get((VS, cc)), by.get((VP, r)), by.get((VP, cc))
                raw = (sr, sc)
                sr, sc, pr, pc = (w is not None and un(w) or None for w in (sr, sc, pr, pc))
                k, x, y = un(k), t.a[1], t.a[2]
                known = lambda z: any(un(z) is w for w in (sr, sc, pr, pc) if w is not None)
                if lst == 'diagonal':
                    sr_, sc_ = raw
                    same_ = sr is not None and sc is not None and refuted(g, [lnot(eq0(sub(sr_, sc_)))])
                    R.verdict(True if same_ else False if sr is not None and sc is not None else None, 'lookup:diagonal:same supernode', f.loc, 'two variables of different supernodes are looked up in a diagonal block')
                    R.verdict(True if k in (sr, sc) else None if not known(k) else False, 'lookup:diagonal:block', f.loc, show(k)[:60])
                    R.verdict(True if un(x) is pr and un(y) is pc else False if known(x) and known(y) else None, 'lookup:diagonal:entry', f.loc, 'entry (%s,%s) of the diagonal block for (r,c)' % (show(x)[-60:], show(y)[-60:]))
                else:
                    R.verdict(True if k is sc else False if known(k) else None, 'lookup:off-diagonal:block', f.loc, 'off-diagonal block of supernode %s' % show(k)[-60:])
                    R.verdict(True if un(x) is pc else False if known(x) else None, 'lookup:off-diagonal:row', f.loc, show(x)[-60:])
                    sep = [z for q in g.lit for z in subterms(q) if z.op == 'i' and z.a[0].op == 'e' and ('separators' in show(z.a[0].a[0]))]
                    hit = [z for z in sep if equal(g, z.a[0].a[1], y) is True]
                    ok = [z for z in hit if refuted(g, [lnot(eq0(sub(z, r)))])]
                    R.verdict(True if ok and all(un(z).a[0].a[0].a[1] is k for z in ok) else False if sep and pure(y) and pure(k) else None, 'lookup:off-diagonal:column', f.loc,
                              'column %s is not the position of the row variable in the separators of that supernode' % show(y)[-60:])


def check(P, R):
    lookup(P, R)
    update(P, R)
    bind(P, R)
    ties(P, R)
    assemble(P, R)
    relabel(P, R)
    addresses(P, R)
