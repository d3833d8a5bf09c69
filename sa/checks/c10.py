from ..util import *
from .. import pairs
from .c27 import Trip

TECHNIQUE = 'dependence analysis of the assembled Newton system: typestate of every field (stale / rebuilt) and additivity of the accumulating form'
RULE = ('Every kind\'s ConstructSchurComplementSystem with initialize=true leaves no field of the system (G, AW, AQc and the two '
        'inner products) that depends on what the storage held before: a field is written as a whole, or cleared before anything '
        'is added, on every path, unless the path has established that the written extent is the whole system; nothing is cleared '
        'after it was written. With initialize=false every store adds to the old value a term that does not depend on it, and the '
        'term is the one stored with initialize=true. The clique assembly passes initialize=true and the type-erased forwarder '
        'passes the flag and the system on unchanged.')

MATS = ('G', 'AW', 'AQc')
SCAL = ('inner_product_of_w_and_c', 'inner_product_of_c_and_Qc')
FIELDS = MATS + SCAL
SYS = 'SYS'
WHAT = {'G': 'the matrix', 'AW': 'AW', 'AQc': 'AQc', SCAL[0]: 'the inner product of w and c', SCAL[1]: 'the inner product of c and Qc'}


def sysfield(loc):
    """(field, region) of a location inside the system; region is a tuple of accessors."""
    reg = []
    t = loc
    while True:
        if t.op in ('view', 'e'):
            reg.append((t.op,) + tuple(t.a[1:]))
            t = t.a[0]
        elif t.op == 'mat' and len(t.a) == 1:
            t = t.a[0]
            if t.op == 'i':
                t = t.a[0]
        elif t.op == 'f' and t.a[1] == 'data' and t.a[0].op == 'f':
            t = t.a[0]
        elif t.op == 'f' and t.a[1] in FIELDS and t.a[0].op == 'pt' and t.a[0].a[0].op == 'p' and t.a[0].a[0].a[0] == SYS:
            return t.a[1], tuple(reversed(reg))
        else:
            return None


def olds(t):
    """Fields whose previous contents a value depends on."""
    out = set()
    for x in subterms(t):
        r = sysfield(x.a[0]) if x.op == 'i' and len(x.a) == 1 else sysfield(x) if x.op == 'mat' else None
        if r and (r[0] in SCAL or x.op == 'mat'):
            out.add(r[0])
    return out


class Asm(Trip):
    def __init__(self, init):
        super().__init__()
        self.init = init
        self.ev, self.bad, self.und = [], [], []

    def opaque(self, fn):
        # computations that can only read their arguments
        if fn.short == 'ConstructSchurComplementSystem' or fn.short == 'setZero':
            return False
        ts = [fn.tu.t(p['t']) for p in fn.params]
        if any((t.get('ref') and not t.get('const')) or (t.get('k') == 'ptr' and not t.get('pconst')) for t in ts):
            return False
        return fn.loc.startswith(('conex/jordan_matrix_algebra', 'conex/exponential_map')) or bool(fn.j.get('const'))

    def on_write(self, I, st, loc, val, node, op):
        r = sysfield(loc)
        if r is None:
            return
        F, reg = r
        prev = getattr(I, 'prev', None)
        whole = not reg
        zero = val.op == 'Zero' or (isc(val) and cval(val) == 0)
        dep = F in olds(val)
        where = I.fr.fn.loc
        if not I.mute:
            if whole and zero and self.init and st.cs.get('w:' + F):
                self.bad.append(('cleared:' + F, where, '%s is cleared after a contribution was stored in it' % WHAT[F]))
            if self.init and dep and not st.cs.get('z:' + F):
                if st.cs.get('w:' + F):
                    self.und.append(('stale:' + F, where, show(val)[:120]))
                else:
                    self.bad.append(('stale:' + F, where, 'with initialize=true a value is added to what %s held before' % WHAT[F]))
            if not self.init and not dep:
                self.bad.append(('lost:' + F, where, 'with initialize=false %s is overwritten instead of added to' % WHAT[F]))
            self.ev.append((F, reg, val, prev, st.facts.copy(), tuple(l[0] for l in st.loops), where))
        if whole and not dep:
            st.cs['z:' + F] = 1
        if not zero:
            st.cs['w:' + F] = 1


def extent(cl, reg):
    """Number of leading rows of the system that a write reaches, over the iterations of its loops; None if unknown."""
    if not reg:
        return None
    r = reg[0]
    if r[0] == 'view':
        k = r[1].split('<')[0]
        if k in ('topLeftCorner', 'topRows', 'head', 'leftCols'):
            return r[2]
        if k in ('bottomRows', 'rightCols', 'tail', 'bottomLeftCorner', 'topRightCorner', 'bottomRightCorner'):
            return r[2]
        if k not in ('row', 'col'):
            return None
        x = r[2]
    else:
        # of a symmetric matrix either index may run over the whole range
        for x in reversed(r[1:]):
            if x.op == 'ix' or x.op == 'poly':
                break
        else:
            return None
    if x.op == 'ix':
        lid = x.a[0]
        return x.a[1] if len(x.a) > 1 else pairs.trips(cl, lid) if lid in cl.ranges else None
    return None


def covered(cl, F, facts):
    """True: all of F is written although it was not reset; False: nothing relates the size of F to what is written."""
    if F in SCAL:
        return True
    n = mk('rows', sysloc('G'))
    mp = {mk('cols', sysloc('G')): n}
    f = facts.copy()
    f.assume(eq0(sub(n, mk('cols', sysloc('G')))), True)
    known = [subst(x, mp) for x in list(facts.lit) + list(facts.ge)]
    known = [x for x in known if any(y is n for y in subterms(x))]
    corners = {reg[0][1].split('<')[0] for G, reg, *_ in cl.ev if G == F and reg and reg[0][0] == 'view' and 'Corner' in reg[0][1]}
    res = []
    for G, reg, val, prev, fv, loops, where in cl.ev:
        if G != F or not reg:
            continue
        x = extent(cl, reg)
        if x is None:
            res.append(None)
            continue
        if equal(f, n, x) is True:
            return True
        # every fact about the size relates it to this extent only, and leaves it open
        free = all(not (k.op == 'poly' or k.op == 'eq0') or {BY_ID(i) for i in pids(k)} <= {n} | {BY_ID(i) for i in pids(x)} for k in known)
        g = f.copy()
        res.append(False if free and g.assume(eq0(sub(n, x)), False) and g.consistent() else None)
    return False if res and all(r is False for r in res) and len(corners) < 3 else None


def pids(t):
    from ..terms import pdict
    t = t.a[0] if t.op == 'eq0' else t
    return {i for m in pdict(t) for i, _ in m}


def sysloc(F):
    return mk('i', mk('f', mk('pt', mk('p', SYS)), F))


def canon(val, loops):
    """Loop counters and loop values numbered by nesting instead of by identity."""
    lids = sorted({x.a[0] for x in subterms(val) if x.op in ('ix', 'lp') and x.a and isinstance(x.a[0], int)} - set(loops))
    num = {l: 1000 + i for i, l in enumerate(loops)}
    num.update({l: 2000 + i for i, l in enumerate(lids)})
    mp = {x: mk(x.op, num[x.a[0]], *(show(y) if hasattr(y, 'op') and any(z.op == 'var' for z in subterms(y)) else y for y in x.a[1:])) for x in subterms(val) if x.op in ('ix', 'lp') and x.a and x.a[0] in num}
    return subst(val, mp) if mp else val


def mono(t):
    from ..terms import pdict
    return pdict(t)


def zeros(t):
    mp = {x: ZERO for x in subterms(t) if x.op == 'get' and x.a[0].op == 'Zero'}
    return subst(t, mp) if mp else t


REDUCE = {'sum', 'norm', 'squaredNorm', 'trace', 'mean', 'maxCoeff', 'minCoeff', 'prod', 'lpNorm'}


def agree(facts, x, y):
    """Are two contributions the same?  False only when they are built from the same parts in different amounts."""
    x, y = zeros(x), zeros(y)
    e = equal(facts, x, y)
    if e is not None:
        return e
    a, b = mono(x), mono(y)
    at = lambda d: {i for m in d for i, _ in m}
    if at(a) == at(b):
        return False
    ka, kb = {(m, c) for m, c in a.items()}, {(m, c) for m, c in b.items()}
    if ka < kb or kb < ka:
        return False
    da, db = ka - kb, kb - ka
    if len(da) == 1 and len(db) == 1:
        (ma, ca), (mb, cb) = next(iter(da)), next(iter(db))
        ta, tb = [BY_ID(i) for i, _ in ma], [BY_ID(i) for i, _ in mb]
        ta, tb = [t for t in ta if t not in tb], [t for t in tb if t not in ta]
        if len(ta) == 1 and len(tb) == 1 and ta[0].op == tb[0].op == 'call' and ta[0].a[0] in REDUCE and tb[0].a[0] in REDUCE \
                and ta[0].a[0] != tb[0].a[0] and ta[0].a[1:] == tb[0].a[1:]:
            return False
        # the same function of an intermediate result and of something computed from it
        if len(ta) == 1 and len(tb) == 1 and ta[0].op == tb[0].op == 'call' and ta[0].a[0] == tb[0].a[0] and len(ta[0].a) == len(tb[0].a):
            df = [(p, q) for p, q in zip(ta[0].a[1:], tb[0].a[1:]) if p is not q]
            if len(df) == 1 and (df[0][0] in set(subterms(df[0][1])) or df[0][1] in set(subterms(df[0][0]))):
                return False
    return None


def kinds(P):
    return [f for f in P.fns.values() if f.short == 'ConstructSchurComplementSystem' and f.body is not None and len(f.params) == 3
         and f.tu.t(f.params[0]['t'])['s'] != 'conex::Constraint *']


def groups(cl):
    g = {}
    for F, reg, val, prev, facts, loops, where in cl.ev:
        k = (F, tuple(tuple(canon(y, loops) if hasattr(y, 'op') else y for y in r) for r in reg), len(loops))
        v, p = canon(val, loops), canon(prev, loops) if prev is not None else None
        if k in g and g[k][0] is p:
            g[k] = (v, g[k][1], facts, where)
        else:
            g[k] = (v, p, facts, where)
    return g


def start():
    st = State()
    st.write(mk('f', mk('pt', mk('p', SYS)), 'residual_only_'), ZERO)
    return st


def kind(P, R, f):
    name = f.tu.t(f.params[0]['t'])['s'].replace('conex::', '').replace('(anonymous namespace)::', '').rstrip(' *')
    got = []
    R.assumption('constraints are assembled into systems that hold the matrix G (residual_only_ is false; only the vector system of the whole program, which no constraint writes, is residual_only)')
    for init in (1, 0):
        cl = Asm(bool(init))
        outs = rets(Interp(P, cl).run(f, args=[mk('p', f.params[0]['n']), C(init), mk('p', SYS)], st=start()))
        for key, where, d in cl.bad:
            R.bad('%s:%s' % (name, key), where, d)
        for key, where, d in cl.und:
            R.und('%s:%s' % (name, key), where, d)
        got.append((cl, outs))
    cl, outs = got[0]
    R.count('stores into the system', len(cl.ev) + len(got[1][0].ev))
    seen = {e[0] for e in cl.ev}
    for F in FIELDS:
        if F not in seen:
            R.bad('%s:stale:%s' % (name, F), f.loc, 'with initialize=true %s is never written' % WHAT[F])
            continue
        v = True
        for o in outs:
            if o.st.cs.get('z:' + F):
                continue
            if F in SCAL:
                w = True if o.st.cs.get('w:' + F) else False
            else:
                w = covered(cl, F, o.st.facts)
            v = w if v is True else v if v is False else (False if w is False else None)
        R.verdict(v, '%s:stale:%s' % (name, F), f.loc, 'with initialize=true a path leaves part of %s as it was' % WHAT[F])
    a, b = groups(got[0][0]), groups(got[1][0])
    for F in FIELDS:
        ka = {k for k in a if k[0] == F and not (a[k][0].op == 'Zero' or isc(a[k][0]) and cval(a[k][0]) == 0)}
        kb = {k for k in b if k[0] == F}
        if ka and not kb:
            R.bad('%s:dropped:%s' % (name, F), f.loc, 'with initialize=false nothing is added to %s' % WHAT[F])
        elif kb and not ka:
            R.verdict(False if all(F in olds(b[k][0]) for k in kb) else None, '%s:extra:%s' % (name, F), f.loc, 'a contribution to %s is added only with initialize=false' % WHAT[F])
        for k in ka | kb:
            if not (k in ka and k in kb):
                if ka and kb:
                    R.und('%s:same:%s' % (name, F), f.loc, 'stored at different places in the two forms: %s' % str([show(y) if hasattr(y, 'op') else y for r in k[1] for y in r])[:120])
                continue
            va, pa, fa, wa = a[k]
            vb, pb, fb, wb = b[k]
            if F in olds(va):
                va = sub(va, pa) if pa is not None else va
            d = sub(vb, pb) if pb is not None else vb
            if F in olds(d):
                R.und('%s:additive:%s' % (name, F), wb, show(d)[:120])
                continue
            R.ok('%s:additive:%s' % (name, F), wb)
            R.verdict(agree(fb, va, d), '%s:same:%s' % (name, F), wb, 'contribution to %s: stored %s, added %s' % (WHAT[F], show(va)[:80], show(d)[:80]))


class Calls(Client):
    by_value = True

    def __init__(self):
        self.calls = []

    def opaque(self, fn):
        return fn.short == 'ConstructSchurComplementSystem'

    def on_call(self, I, st, node, name, obj, args):
        if name.split('::')[-1] in ('ConstructSchurComplementSystem', 'do_schur_complement') and not I.mute:
            self.calls.append((name, list(args), I.fr.fn.loc))


def forwarders(P, R):
    n = 0
    for f in P.fns.values():
        if f.body is None or not P.is_repo(f):
            continue
        typed = f.short == 'ConstructSchurComplementSystem' and f.tu.t(f.params[0]['t'])['s'] == 'conex::Constraint *'
        if not (typed or f.short in ('do_schur_complement', 'SetDenseData') and f.name != 'conex::SupernodalAssemblerStatic::SetDenseData'):
            continue
        cl = Calls()
        try:
            outs = rets(Interp(P, cl).run(f))
        except Undecided as e:
            R.und('forward:' + f.name, f.loc, str(e))
            continue
        n += 1
        key = 'assembly' if f.short == 'SetDenseData' else 'forward'
        if not cl.calls:
            R.verdict(False if f.short != 'SetDenseData' else None, key + ':' + f.name, f.loc, 'the constraint is never asked for its system')
        for nm, args, where in cl.calls:
            if len(args) < 2:
                continue
            flag, s = args[-2], args[-1]
            if f.short == 'SetDenseData':
                R.verdict(True if isc(flag) and cval(flag) else False if isc(flag) else None, key + ':flag', where, 'the clique matrix is assembled with initialize=%s' % show(flag))
            else:
                ps = [mk('p', p['n']) for p in f.params[-2:]]
                tb = strip_int(flag)
                R.verdict(True if tb is ps[0] or tobool(tb) is tobool(ps[0]) else False if isc(tb) else None, key + ':flag', where, 'the flag is passed on as %s' % show(flag))
                R.verdict(True if s is ps[1] else None, key + ':system', where, show(s))
    R.count('forwarders and callers', n)


def check(P, R):
    fs = kinds(P)
    R.floor('assembly functions', len(fs), 5)
    for f in fs:
        try:
            kind(P, R, f)
        except Undecided as e:
            R.und('kind:' + f.loc, f.loc, str(e))
    forwarders(P, R)
