from ..util import *
from ..terms import under
from ..lib import handle_loc, rd, rec, sizeloc
from ..engine import deref, LOCOPS
from ..poly import equalities

TECHNIQUE = 'typestate dataflow of the factorization object and symbolic comparison of every linear solve with the inverse of the factored matrix; block indices compared by closed forms of the loop counters'
RULE = ('A linear solve applies exactly the factors that the last factorization stored (Cholesky, LDLT or QR), between the variable permutation '
        'and its inverse; refinement adds the solution of the true residual of the matrix as it was before it was factored in place; a failed '
        'diagonal block makes the factorization report failure; forward and backward substitution treat every block once, with its own piece of the vector.')

BTO = 'conex::BlockTriangularOperations::'
KERNEL = {'ApplyBlockInverseInPlace': ('chol', 'L'), 'ApplyBlockInverseOfTransposeInPlace': ('chol', 'Lt'),
          'ApplyBlockInverseOfMD': ('ldlt', 'MD'), 'ApplyBlockInverseOfMTranspose': ('ldlt', 'Mt')}
INVERSE = {('L', 'Lt'), ('MD', 'Mt')}


class Sol(Client):
    by_value = True

    def __init__(self, R):
        self.R, self.log = R, []

    def opaque(self, fn):
        if fn.name.startswith(BTO):
            return fn.short not in ('SolveInPlaceCholesky', 'SolveInPlaceLDLT')
        return not fn.name.startswith('conex::SupernodalKKTSolver::') and not fn.loc.startswith('conex/kkt_solver.cc')

    def obl(self, I, ok, key, msg=''):
        if not I.mute:
            self.log.append((ok, key, I.fr.fn.loc if I.fr else self.at, msg))

    def call(self, I, st, node, name, obj, args):
        short = name.split('::')[-1]
        if name == BTO + 'BlockCholeskyInPlace' or name == BTO + 'BlockLDLTInPlace':
            self.obl(I, 'F' not in st.cs or st.cs['F'] == 'qr', 'Factor:once', 'factors a matrix that was factored in place before')
            loc = deref(args[0])
            if short == 'BlockLDLTInPlace':
                st.cs['F'], st.cs['ws'], st.cs['fz'] = 'ldlt', loc, deref(args[1])
                return [(st, mk('b', 'call', fresh('regularized')))]
            a = st.fork()
            a.cs['F'], a.cs['ws'] = 'chol', loc
            st.cs['F'], st.cs['ws'] = 'failed', loc
            return [(a, ONE), (st, ZERO)]
        if name.startswith(BTO) and short in KERNEL:
            kind, factor = KERNEL[short]
            F = st.cs.get('F')
            self.obl(I, F == kind, 'solve:kind', 'applies the %s factors, but the last factorization %s' % (kind, {'failed': 'failed', None: 'has not been computed', 'qr': 'is a QR factorization'}.get(F, 'stored ' + str(F))))
            self.obl(I, F is None or args[0] is st.cs.get('ws'), 'solve:factors', 'applies the factors of %s, the factored matrix is %s' % (show(args[0])[:60], show(st.cs.get('ws') or ZERO)[:60]))
            if kind == 'ldlt':
                z = args[1]
                if z.op in LOCOPS:
                    z = st.read(z) if z is not st.cs.get('fz') else z
                self.obl(I, True if z is st.cs.get('fz') or z.op == 'i' and z.a[0] is st.cs.get('fz') else None, 'solve:pivots')
            L = deref(args[-1])
            st.write(L, mk('app', factor, st.read(L)))
            return [(st, mk('void'))]
        if name == 'conex::SupernodalKKTSolver::KKTMatrix':
            F = st.cs.get('F')
            self.obl(I, F is None or F == 'qr', 'KKTMatrix:before', 'the matrix for refinement or QR is read after it was overwritten by its factors')
            return [(st, mk('K', F in (None, 'qr')))]
        if name.startswith('Eigen::') and obj is not None and 'QR' in rec(I, node.get('o')):
            if short == 'compute':
                v = rd(I, st, args[0], node['a'][0])
                for f, x in cases(st.facts, v):
                    self.obl(I, True if x.op == 'K' and x.a[0] else False if x.op in ('i', 'K') else None, 'QR:matrix', 'factors %s, which is not the assembled matrix' % show(x)[:60])
                st.cs['F'] = 'qr'
                return [(st, obj)]
            if short == 'solve':
                F = st.cs.get('F')
                self.obl(I, F == 'qr', 'solve:kind', 'applies the QR factors, but the last factorization stored %s' % F)
                return [(st, mk('qr', rd(I, st, args[0], node['a'][0])))]
        return None

    def on_write(self, I, st, loc, val, node, op):
        B = getattr(self, 'B', None)
        if B is None or I.mute or loc is not B:
            return
        prev = I.prev
        for f, p in cases(st.facts, mk('pair', val, prev)):
            if p.op != 'pair':
                continue
            v, old = p.a
            if old is self.b0:
                self.judge(I, v, self.b0, 'SolveInPlace:solution')
            else:
                K = self.K
                d = sub(v, old)
                if d is ZERO:
                    continue
                if v.op in ('mm', 'app', 'qr') and any(x.op in ('app', 'qr') for x in subterms(v)) and any(x is old for x in subterms(v)):
                    self.obl(I, False, 'SolveInPlace:refinement', 'the correction replaces the solution instead of being added to it')
                    continue
                r = self.rhs(I, d, 'SolveInPlace:refinement')
                if r is not None:
                    Ks = [x for x in subterms(r) if x.op == 'mm' and x.a[1] is old]
                    good = any(r is sub(self.b0, x) for x in Ks)
                    self.obl(I, True if good and all(x.a[0].op == 'K' and x.a[0].a[0] for x in Ks)
                             else False if all(y.op in ('K', 'poly', 'mm', 'c', 'i', 'f', 'lp', 'mat', 'mat0', 'pt', '&', 'p', 'app', 'T', 'b', 'var') for y in subterms(r))
                             and (Ks or not any(y.op == 'lp' and y is not old for y in subterms(r))) else None,
                             'SolveInPlace:residual', 'refines with %s instead of the residual of the unfactored matrix' % show(r)[:100])

    def rhs(self, I, v, key):
        """r when v is the solution of the factored system for r."""
        if v.op == 'qr':
            return v.a[0]
        w, out = v, []
        while w.op == 'mm':
            out.append(w.a[0])
            w = w.a[1]
        fac = []
        while w.op == 'app':
            fac.append(w.a[0])
            w = w.a[1]
        inn = []
        while w.op == 'mm' and perm(w.a[0]):
            inn.append(w.a[0])
            w = w.a[1]
        if not fac:
            self.obl(I, False if w.op != 'ite' and not any(x.op in ('app', 'qr', 'call', 'out') for x in subterms(v)) else None, key, 'not a solution of the factored system: %s' % show(v)[:80])
            return None
        ok = tuple(reversed(fac)) in INVERSE
        self.obl(I, ok, key + ':factors', 'applies the factors %s' % ', '.join(reversed(fac)))
        if len(out) == 1 and len(inn) == 1 and perm(out[0]) and inn[0] is mk('T', out[0]) or len(out) == len(inn) == 1 and out[0] is mk('T', inn[0]):
            fwd = out[0].op != 'T'
            self.obl(I, fwd, key + ':permutation', 'the permutation and its inverse are exchanged')
        elif all(perm(x) for x in out + inn):
            self.obl(I, False, key + ':permutation', 'the vector is not permuted into the order of the factors and back (%d, %d permutations)' % (len(inn), len(out)))
        else:
            self.obl(I, None, key + ':permutation', 'permutation not recognised')
        return w

    def judge(self, I, v, b0, key):
        r = self.rhs(I, v, key)
        if r is not None:
            self.obl(I, True if r is b0 else False if r.op in ('poly', 'i', 'mat', 'mm') else None, key + ':rhs', 'solves for %s instead of the given right-hand side' % show(r)[:80])


def perm(x):
    y = x.a[0] if x.op == 'T' else x
    return y.op in ('mat', 'i')


def one(P, name):
    fs = [f for f in P.named(name) if f.body is not None]
    return fs[0] if fs else None


S = 'conex::SupernodalKKTSolver::'


def solver(P, R):
    fac = one(P, S + 'Factor')
    if fac is None:
        raise AnalysisBroken('SupernodalKKTSolver::Factor not found')
    this = mk('pt', mk('p', 'this'))
    for name in ('Solve', 'SolveInPlace'):
        f = one(P, S + name)
        if f is None:
            R.und(name + ':present')
            continue
        cl = Sol(R)
        I = Interp(P, cl)
        n = 0
        for o in I.run(fac, this=this):
            if o.kind != 'ret':
                continue
            for w in worlds(o.st.facts, o.val):
                st = o.st.fork()
                st.facts = w
                if st.cs.get('F') == 'failed':
                    cl.log.append((False, 'Factor:failure', fac.loc, 'reports success although a diagonal block could not be factored'))
                    continue
                n += 1
                p = mk('p', f.params[0]['n'])
                par = I.param_symbol(f, f.params[0])
                L = par if par.op in LOCOPS else deref(par)
                cl.K = None
                cl.B = None
                if name == 'SolveInPlace':
                    cl.b0 = st.read(handle_loc(st.read(L), L))
                    cl.B = handle_loc(st.read(L), L)
                else:
                    cl.b0 = st.read(L)
                outs = I.run(f, args=[par], this=this, st=st.fork())
                for q in outs:
                    if q.kind == 'throw':
                        continue
                    if name == 'Solve':
                        for g, v in cases(q.st.facts, q.val):
                            cl.at = f.loc
                            cl.judge(I, v, cl.b0, 'Solve:solution')
                    else:
                        fin = q.st.read(cl.B)
                        cl.log.append((False if fin is cl.b0 else True, 'SolveInPlace:result', f.loc, 'returns without solving'))
        for ok, key, loc, msg in cl.log:
            R.verdict(ok, key, loc, msg)
        R.floor('ways to factor and then ' + name, n, 1)
    # inputs of the wrong size are refused
    f = one(P, S + 'KKTMatrix')
    if f is not None:
        class K(Client):
            def opaque(self, g):
                return g is not f
        for o in Interp(P, K()).run(f, this=this):
            if o.kind != 'ret':
                continue
            v = o.val
            g = [x for x in subterms(v) if x.op == 'get' and 'selfadjointView' in str(x.a[1])]
            ok = None
            if v.op == 'mm' and v.a[0].op == 'mm' and g:
                p1, m, p2 = v.a[0].a[0], v.a[0].a[1], v.a[1]
                if m is g[0] and perm(p1) and perm(p2):
                    ok = p1.op != 'T' and p2 is mk('T', p1)
                    ok = ok and m.a[1] == 'selfadjointView<1>'
            R.verdict(ok, 'KKTMatrix:value', f.loc, 'the dense matrix is not the permuted, symmetrically completed lower triangle')


def choice(P, R):
    """Cholesky is used only if no clique carries multipliers."""
    fac = one(P, S + 'Factor')
    for n, pos in ((1, 0), (2, 0), (2, 1), (3, 1)):
        class C2(Sol):
            def call(self, I, st, node, name, obj, args):
                if name == BTO + 'BlockCholeskyInPlace' and not I.mute:
                    self.hit.append(I.fr.fn.loc)
                return Sol.call(self, I, st, node, name, obj, args)
        cl = C2(R)
        cl.hit = []
        I = Interp(P, cl)
        this = mk('pt', mk('p', 'this'))
        st = State()
        L = mk('f', this, 'dual_variables_')
        st.store[sizeloc(L)] = C(n)
        for k in range(n):
            m = mk('p', 'k%d' % k)
            el = mk('e', L, C(k))
            if k == pos:
                st.facts.assume(ge0(sub(m, ONE)), True)
                st.store[sizeloc(el)] = m
            else:
                st.store[sizeloc(el)] = ZERO
        try:
            I.run(fac, this=this, st=st)
        except Undecided as e:
            R.und('Factor:Cholesky only without multipliers', fac.loc, str(e))
            continue
        used = any(x.op == 'f' and x.a[1] == 'dual_variables_' for x in [L])
        R.verdict(not cl.hit, 'Factor:Cholesky only without multipliers', fac.loc, 'an indefinite system (multipliers in clique %d of %d) is factored by Cholesky' % (pos + 1, n))


class Blk(Client):
    """Diagonal blocks of the Cholesky factorization: factored, checked, failure reported."""
    by_value = True

    def __init__(self):
        self.log, self.seen = [], []

    def opaque(self, fn):
        return not fn.loc.startswith('conex/block_triangular')

    def call(self, I, st, node, name, obj, args):
        short = name.split('::')[-1]
        if short in ('emplace_back', 'push_back') and args and node.get('o') is not None:
            t = I.ty(node['o'])
            if 'LLT' in t.get('s', '') and any(x.op == 'f' and x.a[1] == 'diagonal' for x in subterms(args[0])):
                if not I.mute:
                    self.seen.append(1)
                    if st.cs.get('U') in ('unchecked', 'failed'):
                        self.log.append((False, 'BlockCholesky:checked', I.fr.fn.loc, 'goes on to the next block although the previous one %s' % ('failed' if st.cs['U'] == 'failed' else 'was not checked')))
                st.cs['U'] = 'unchecked'
        if short == 'info' and name.startswith('Eigen::LLT'):
            a = st.fork()
            a.cs.pop('U', None)
            st.cs['U'] = 'failed'
            return [(a, ZERO), (st, ONE)]
        return None


def blocks(P, R):
    f = one(P, BTO + 'BlockCholeskyInPlace')
    if f is None:
        R.und('BlockCholesky:present')
        return
    cl = Blk()
    for o in Interp(P, cl).run(f):
        if o.kind != 'ret':
            continue
        ws = worlds(o.st.facts, o.val, True)
        if ws:
            u = o.st.cs.get('U')
            cl.log.append((u is None, 'BlockCholesky:failure', f.loc, 'reports success although a diagonal block %s' % ('could not be factored' if u == 'failed' else 'was not checked')))
    for ok, key, loc, msg in cl.log:
        R.verdict(ok, key, loc, msg)
    if not cl.seen:
        R.und('BlockCholesky:blocks', f.loc, 'no factorization of a diagonal block recognised')


# ---- substitution ---------------------------------------------------------
class Sub(Client):
    by_value = True

    def __init__(self):
        self.phi, self.ev, self.ranges = {}, [], {}
        self.kinds, self.skip, self.perm, self.left = [], [], [], []

    def opaque(self, fn):
        return not fn.loc.startswith('conex/block_triangular')

    def block(self, t):
        """Index of the block a term reads: diagonal[k], off_diagonal[k] or factorization[k]."""
        for x in subterms(t):
            if x.op == 'get' and len(x.a) == 3 and x.a[1] == 'e' and any(y.op in ('p', 'lp', 'i', 'var', 'pt') and 'factorization' in show(y) for y in subterms(x.a[0])):
                return 'factorization', x.a[2]
            if x.op == 'e' and len(x.a) == 2:
                c = x.a[0]
                n = c.a[1] if c.op == 'f' else None
                if n in ('diagonal', 'off_diagonal'):
                    return n, x.a[1]
                if c.op == 'var' or n is None and any(y.op == 'p' for y in subterms(c)):
                    if any('factorization' in str(y.a[0]) if y.op == 'p' else y.op == 'var' and 'factorization' in str(y.a[-1]) for y in subterms(c)):
                        return 'factorization', x.a[1]
        return None

    def view(self, st, v):
        for _ in range(6):
            if v.op == 'lref':
                v = v.a[0]
            elif v.op in ('tmp', 'var', 'i') and v.op != 'i':
                v = st.read(v)
            else:
                break
        if v.op == 'view' and v.a[1] == 'segment' and len(v.a) == 4:
            return v.a[2], v.a[3]
        if v.op == 'get' and v.a[1] == 'segment' and len(v.a) == 4:
            return v.a[2], v.a[3]
        return None

    def on_call(self, I, st, node, name, obj, args):
        if I.mute or name.split('::')[-1] != 'solveInPlace' or not args:
            return
        o = st.read(obj) if obj.op in LOCOPS else obj
        for _ in range(4):
            if o.op == 'lref':
                o = o.a[0]
            elif o.op in ('tmp', 'var'):
                o = st.read(o)
        b = self.block(o)
        s = self.view(st, args[0])
        self.ev.append(('solve', b, s, st.fork(), st.loops))
        self.did(st, 'solve')

    def did(self, st, kind):
        lid = st.loops[-1][0] if st.loops else 0
        self.kinds.append((kind, lid))
        st.cs['%s %d' % (kind, lid)] = True

    def perms(self, st, val, p):
        """Permutations applied to a piece of the vector."""
        if val.op != 'mm':
            return
        x, inv = val.a[0], False
        while x.op == 'T' or x.op == 'call' and x.a[0] == 'inverse' and len(x.a) == 2:
            inv, x = not inv, x.a[-1]
        if x.op == 'call' and 'PermutationMatrix' in str(x.a[0]) or x.op == 'new' and 'PermutationMatrix' in show(x):
            lid = st.loops[-1][0] if st.loops else 0
            self.perm.append((inv, 'solve %d' % lid in st.cs))
            self.did(st, 'permutation')

    def on_write(self, I, st, loc, val, node, op):
        if I.mute:
            return
        for x in subterms(val):
            if x.op == 'mm' and x.a[0].op == 'T':
                b = self.block(x.a[0])
                s = self.view(st, x.a[1])
                if b and b[0] == 'off_diagonal' and s:
                    self.ev.append(('apply', b, s, st.fork(), st.loops))
                    self.did(st, 'apply')
        if loc.op == 'view' and loc.a[1] == 'segment':
            p = (loc.a[2], loc.a[3])
            self.perms(st, val, p)
            for x in subterms(val):
                if x.op == 'get' and len(x.a) == 3 and x.a[1] == 'e' and self.block(x) and self.block(x)[0] == 'factorization':
                    self.ev.append(('pivot', self.block(x), p, st.fork(), st.loops))
            if op != '=' or True:
                cols = [x for x in subterms(val) if x.op == 'get' and x.a[1] == 'col' and self.block(x.a[0]) and self.block(x.a[0])[0] == 'off_diagonal']
                if cols:
                    self.did(st, 'column')
                for x in cols:
                    self.ev.append(('column', self.block(x.a[0]), p, st.fork(), st.loops))
                    first = [y for y in subterms(val) if y.op == 'get' and len(y.a) == 3 and y.a[1] == 'e' and y.a[0].op == 'get' and y.a[0].a[1] == 'segment']
                    for y in first:
                        self.ev.append(('pair', (x.a[2], y.a[2], self.block(x.a[0])[1]), (y.a[0].a[2], y.a[0].a[3]), st.fork(), st.loops))
        if loc.op == 'e' and len(loc.a) == 2:
            i = strip_int(loc.a[1])
            if i.op == 'i' and i.a[0].op == 'e' and i.a[0].a[0].op == 'e' and i.a[0].a[0].a[0].op == 'f' and i.a[0].a[0].a[0].a[1] == 'separators':
                g = [x for x in subterms(val) if x.op == 'get' and len(x.a) == 3 and x.a[1] == 'e' and x.a[0].op == 'mm' and self.block(x.a[0])]
                if g:
                    self.did(st, 'scatter')
                    self.ev.append(('scatter', (i.a[0].a[0].a[1], i.a[0].a[1], self.block(g[0].a[0])[1], g[0].a[2], sub(val, I.prev) is neg(g[0])), None, st.fork(), st.loops))

    def on_loop_done(self, I, lid, ix, trip, entry, modified, backs, exits):
        for loc, how in modified.items():
            if how[0] == 'phi':
                self.phi[(lid, loc)] = (entry.read(loc), [b.read(loc) for b in backs], ix)
            else:
                self.phi[(lid, loc)] = None
        self.ranges[lid] = (ix, trip, entry, exits)

    def on_loop_back(self, I, st):
        lid = st.loops[-1][0]
        got = set()
        for k in [k for k in st.cs if k.endswith(' %d' % lid)]:
            got.add(k.split(' ')[0])
            del st.cs[k]
        self.skip.append((lid, got, st.facts.copy(), st.loops))

    def on_loop_break(self, I, st, lid):
        for k in [k for k in st.cs if k.endswith(' %d' % lid)]:
            del st.cs[k]
        self.left.append((lid, st.facts.copy()))


NEEDS = {'solve': ('diagonal', 'supernode_size', 'snodes'), 'permutation': ('diagonal', 'supernode_size', 'snodes'),
         'apply': ('diagonal', 'off_diagonal', 'separators', 'supernode_size', 'snodes'), 'scatter': (), 'column': ()}


def empty(facts, lists):
    """Do the facts say that an element of one of the lists is empty?  (True, False, None = other conditions)"""
    seen = set()
    for t in list(facts.lit) + list(facts.ge):
        for x in subterms(t):
            if x.op in ('rows', 'cols') or nsize(x) is False and x.op == 'i' and x.a[0].op == 'f' and x.a[0].a[1] == '#n':
                l = x.a[0] if x.op in ('rows', 'cols') else x.a[0].a[0]
                for y in subterms(l):
                    if y.op == 'e' and y.a[0].op == 'f' and y.a[0].a[1] in lists:
                        seen.add(x)
            if size_index(x) and size_index(x)[1].op == 'f' and size_index(x)[1].a[1] in lists:
                seen.add(x)
    for x in seen:
        for y in seen:
            f = facts.copy()
            q = x if x is y else mul(x, y)
            if not f.assume(ge0(sub(q, ONE)), True):
                return True
    if any(x.op in ('call', 'out', 'h') for t in facts.lit for x in subterms(t)):
        return None
    return False


def closed(cl, t, depth=0):
    """Replace loop phis whose recurrence has a closed form."""
    if depth > 6:
        return t
    mp = {}
    for x in subterms(t):
        if x.op != 'lp' or (x.a[0], x.a[1]) not in cl.phi:
            continue
        e = cl.phi[(x.a[0], x.a[1])]
        if e is None:
            continue
        init, bs, ix = e
        if not bs or any(b is not bs[0] for b in bs):
            continue
        b = bs[0]
        d = sub(b, x)
        if not any(y is x for y in subterms(b)):
            if any(y.op == 'lp' and y.a[0] == x.a[0] for y in subterms(b)):
                continue
            g = subst(b, {ix: sub(ix, ONE)})
            if subst(g, {ix: ZERO}) is init:
                mp[x] = g
        elif not any(y is x for y in subterms(d)):
            d2 = closed(cl, d, depth + 1)
            if not any(y.op == 'lp' and y.a[0] == x.a[0] for y in subterms(d2)):
                mp[x] = add(init, mk('psum', subst(d2, {ix: mk('K')}), ix))
    return subst(t, mp) if mp else t


def leaves(t):
    return leaves(t.a[1]) | leaves(t.a[2]) if t.op == 'ite' else {t}


def lag(cl, t, seen=None):
    """Does the term use a counter that one path through its loop advances by a constant and another leaves unchanged?"""
    seen = set() if seen is None else seen
    for x in subterms(t):
        e = cl.phi.get((x.a[0], x.a[1])) if x.op == 'lp' and x not in seen else None
        if e is None:
            continue
        seen.add(x)
        ds = [sub(l, x) for b in e[1] for l in leaves(b)]
        if any(d is ZERO for d in ds) and any(isc(d) and d is not ZERO for d in ds):
            return True
        if any(lag(cl, b, seen) for b in e[1]):
            return True
    return False


def size_index(s):
    """k and the list when the term reads element k of a list of sizes."""
    s = strip_int(s)
    if s.op == 'i' and s.a[0].op == 'e' and len(s.a[0].a) == 2:
        return s.a[0].a[1], s.a[0].a[0]
    return None


def start_ok(start, k, lst, N):
    """Is start the sum of sizes[0..k), or N minus the sum of sizes[k..)?"""
    plus, minus, other = set(), set(), []
    for m, c in pdict(start).items() if start is not ZERO else ():
        t = BY_ID(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
        if t is not None and abs(c) == 1 and size_index(t):
            j = size_index(t)[0]
            (plus if c > 0 else minus).add((j, j))
        elif t is not None and t.op == 'psum' and abs(c) == 1:
            p = scale(t.a[0], c)
            sgn = plus if size_index(p) else minus
            si = size_index(p) or size_index(neg(p))
            if not si:
                return None
            ix = t.a[1]
            a, z = subst(si[0], {mk('K'): ZERO}), subst(si[0], {mk('K'): sub(ix, ONE)})
            d = sub(subst(si[0], {mk('K'): ONE}), a)
            if not isc(d) or abs(cval(d)) != 1:
                return None
            sgn.add((a, z) if cval(d) == 1 else (z, a))
        else:
            other.append((m, c, t))
    if minus and plus:
        return None
    if not minus and not other:
        return chain(plus, ZERO, k)
    if len(other) == 1 and other[0][1] == 1 and not plus:
        return chain(minus, k, NB)
    return None


def chain(iv, at, end):
    """Do the ranges of blocks exactly make up at..end-1?"""
    left = set(iv)
    while left:
        nx = [x for x in left if x[0] is at or sub(x[0], at) is ZERO]
        if not nx:
            break
        left.discard(nx[0])
        at = add(nx[0][1], ONE)
    if not left and sub(at, end) is ZERO:
        return True
    return False if all(lin(t) or t.op == 'ix' for x in iv for t in x) and lin(end) else None


def substitution(P, R):
    tot = 0
    for name in KERNEL:
        f = one(P, BTO + name)
        if f is None:
            R.und('substitution:' + name)
            continue
        cl = Sub()
        I = Interp(P, cl)
        try:
            outs = I.run(f)
        except Undecided as e:
            R.und('substitution:' + name, f.loc, str(e))
            continue
        cover = []
        for kind, b, s, st, loops in cl.ev:
            if kind == 'scatter':
                tot += 1
                k1, e1, k2, e2 = [norm(cl, closed(cl, x), loops) for x in b[:4]]
                for x, y, w in ((k1, k2, 'block'), (e1, e2, 'entry')):
                    d = sub(x, y)
                    R.verdict(True if d is ZERO else differ(cl, x, y), '%s:separator %s' % (name, w), f.loc, '%s %s of the product is subtracted at the separator of %s' % (w, show(y)[:40], show(x)[:40]))
                R.verdict(True if b[4] else None, '%s:separator sign' % name, f.loc, '')
                continue
            if kind == 'pair':
                pairs(R, f, name, cl, b, s, loops)
                continue
            if kind == 'solve':
                key = '%s:block' % name
                if b is None or s is None:
                    R.und(key, f.loc, 'block not recognised')
                    continue
            else:
                key = '%s:%s' % (name, kind)
            tot += 1
            k = norm(cl, closed(cl, b[1]), loops)
            st_, sz = norm(cl, closed(cl, s[0]), loops), norm(cl, closed(cl, s[1]), loops)
            si = size_index(sz)
            if lag(cl, sz) or lag(cl, st_) or lag(cl, k):
                R.bad(key, f.loc, 'the position in the vector does not advance with every block (a cursor is left behind on one path through the loop)')
                continue
            if si is None:
                R.und(key, f.loc, 'piece of the vector not recognised: %s' % show(sz)[:80])
                continue
            j = si[0]
            v = sub(k, j)
            ok = True if v is ZERO else False if isc(v) else differ(cl, k, j)
            R.verdict(ok, key, f.loc, 'block %s is applied to the piece of the vector of block %s' % (show(k)[:40], show(j)[:40]))
            R.verdict(start_ok(st_, j, si[1], None), key + ' start', f.loc, 'the piece of the vector for block %s starts at %s' % (show(j)[:40], show(st_)[:80]))
            if kind == 'solve':
                cover.append((k, st, loops, si[1]))
        coverage(R, f, name, cl, cover, None)
        for kind, lid in sorted(set(cl.kinds)):
            paths = [(got, facts) for l, got, facts, _ in cl.skip if l == lid] if lid else \
                [({k.split(' ')[0] for k in o.st.cs if k.endswith(' 0')}, o.st.facts) for o in outs if o.kind == 'ret']
            for got, facts in paths:
                R.verdict(True if kind in got else empty(facts, NEEDS.get(kind, ())), '%s:%s everywhere' % (name, kind), f.loc,
                          'the %s step is skipped for a block that need not be empty' % kind)
            for l, facts in cl.left:
                if l == lid:
                    ix, trip, entry, exits = cl.ranges[lid]
                    last = next((x for x in [trip] + [x.a[1] for x in subterms(ix) if x.op == 'ix' and len(x.a) > 1] if x is not None), None)
                    e = facts.eval(eq0(sub(add(ix, ONE), last))) if last is not None else None
                    R.verdict(True if e is True else False if last is not None or exits else None, '%s:%s everywhere' % (name, kind), f.loc,
                              'the loop over the %s steps is left before the last one' % kind)
        if name in ('ApplyBlockInverseOfMD', 'ApplyBlockInverseOfMTranspose'):
            back = name.endswith('Transpose')
            R.verdict(True if cl.perm else None, name + ':permutation', f.loc)
            for inv, after in cl.perm:
                R.verdict(inv == back, name + ':permutation orientation', f.loc, 'the pivoting permutation of a block is %sapplied as its inverse' % ('not ' if back else ''))
                R.verdict(after == back, name + ':permutation order', f.loc, 'the pivoting permutation is applied on the wrong side of the triangular solve')
    R.floor('block operations of the substitutions', tot, 8)


NB = mk('p', 'nblocks')
LISTS = ('diagonal', 'off_diagonal', 'supernode_size', 'separators', 'factorization', 'snodes', 'temporaries', 'seperator_diagonal')


def nsize(x):
    """The number of blocks, whichever of the parallel lists is asked."""
    if x.op == 'i' and x.a[0].op == 'f' and x.a[0].a[1] == '#n':
        l = x.a[0].a[0]
        return l.op == 'f' and l.a[1] in LISTS or l.op in ('p', 'pt', 'var') and 'factorization' in show(l)
    if x.op == 'fv' and x.a[1] == '#n':
        return 'factorization' in show(x.a[0]) and x.a[0].op != 'e'
    return False


def norm(cl, t, loops):
    """Block counts are all NB; conversions dropped; counters of finished loops have their final value."""
    for _ in range(4):
        mp = {x: NB for x in subterms(t) if nsize(x)}
        mp.update({x: x.a[0] for x in subterms(t) if x.op == 'u' and len(x.a) == 1})
        inside = {l[0] for l in loops}
        for x in subterms(t):
            if x.op == 'ix' and x.a[0] not in inside and x.a[0] in cl.ranges:
                T = trips(cl, x.a[0])
                if T is not None:
                    mp[x] = T
        if not mp:
            break
        t = subst(t, mp)
    return t


def trips(cl, lid):
    ix, trip, entry, exits = cl.ranges[lid]
    if trip is not None:
        return trip
    for x in exits:
        for p in x.facts.ge:
            r = sub(p, ix)
            if pdict(p).get(((ix.id, 1),), 0) == 1 and not any(y is ix for y in subterms(r)):
                return neg(r)          # ix >= T on exit, and ix advances by one
    return None


def pairs(R, f, name, cl, b, s, loops):
    """Back substitution: column pair.second of block j with entry pair.first of the piece after block i."""
    c, e, j = [norm(cl, closed(cl, x), loops) for x in b]
    c, e = strip_int(c), strip_int(e)
    key = '%s:intersection' % name
    def path(t):
        # intersection_position[i][jc][n].first / .second
        if t.op != 'i' or t.a[0].op != 'f' or t.a[0].a[1] not in ('first', 'second'):
            return None
        l = t.a[0].a[0]
        if l.op == 'e' and l.a[0].op == 'e' and l.a[0].a[0].op == 'e':
            return t.a[0].a[1], l.a[0].a[0].a[1], l.a[0].a[1], l.a[1]
        return None
    p, q = path(c), path(e)
    sz = norm(cl, closed(cl, s[1]), loops)
    si = size_index(sz)
    jj = strip_int(j)
    if lag(cl, c) or lag(cl, e) or lag(cl, j):
        R.bad(key, f.loc, 'a counter of the intersections is left behind on one path through the loop')
        return
    if not p or not q or not si or not (jj.op == 'i' and jj.a[0].op == 'e' and jj.a[0].a[0].op == 'e'):
        R.und(key, f.loc, 'pairing not recognised')
        return
    i, jc = jj.a[0].a[0].a[1], jj.a[0].a[1]
    for x, y, w in ((p[1], i, 'supernode'), (p[2], jc, 'list'), (q[1], i, 'supernode'), (q[2], jc, 'list'), (p[3], q[3], 'pair'), (si[0], add(i, ONE), 'piece of the vector')):
        d = sub(strip_ix(x), strip_ix(y))
        R.verdict(True if d is ZERO else differ(cl, strip_ix(x), strip_ix(y)), key + ' ' + w, f.loc, '%s %s is combined with %s' % (w, show(x)[:40], show(y)[:40]))
    R.verdict(p[0] == 'second' and q[0] == 'first', key + ' sides', f.loc, 'column and entry of the pair are exchanged')


def strip_ix(t):
    """Forget the trip count that a range loop attaches to its counter."""
    mp = {x: mk('ix', x.a[0]) for x in subterms(t) if x.op == 'ix' and len(x.a) > 1}
    return subst(t, mp) if mp else t


def differ(cl, k, j):
    """Really different blocks?"""
    d = sub(k, j)
    return False if all(x.op in ('poly', 'c', 'ix') or x is NB for x in subterms(d)) else None


def coverage(R, f, name, cl, cover, outs):
    """The blocks 0..n-1 are each solved once."""
    iv = set()
    for k, st, loops, lst in cover:
        ixs = {x for x in subterms(k) if x.op == 'ix'}
        if not ixs:
            iv.add((k, k))
            continue
        T = None
        if len(ixs) == 1:
            ix = next(iter(ixs))
            T = trips(cl, ix.a[0]) if ix.a[0] in cl.ranges else None
        if T is None:
            R.und(name + ':every block', f.loc, 'range not recognised')
            return
        T = norm(cl, T, ())
        a, z = subst(k, {ix: ZERO}), subst(k, {ix: sub(T, ONE)})
        up = sub(subst(k, {ix: ONE}), a)
        if not isc(up) or abs(cval(up)) != 1:
            R.und(name + ':every block', f.loc, 'range not recognised')
            return
        iv.add((a, z) if cval(up) == 1 else (z, a))
    if not iv:
        return
    ok = chain(iv, ZERO, NB)
    R.verdict(ok, name + ':every block', f.loc, 'blocks treated: %s of 0..n-1' % ', '.join('%s..%s' % (show(a)[:20], show(z)[:20]) for a, z in sorted(iv, key=str)))


def lin(t):
    return all(isc(x) or x is NB or x.op in ('poly', 'ix') for x in subterms(t))


def updates(P, R):
    """The factorizations update the entries between separators in the order in which their addresses are stored."""
    from .. import pairs
    fns = [f for n in (BTO + 'BlockCholeskyInPlace', BTO + 'BlockLDLTInPlace', 'conex::TriangularMatrixWorkspace::S_S') for f in P.named(n) if f.body is not None]
    n = pairs.compare(P, R, fns, lambda f: any(f is g for g in fns) or f.loc.startswith('conex/block_triangular') or f.loc.startswith('conex/triangular_matrix_workspace') and 'LookupAddress' not in f.name, 'update:')
    R.count('loops over pairs of separators', n)


def check(P, R):
    solver(P, R)
    updates(P, R)
    choice(P, R)
    blocks(P, R)
    substitution(P, R)
