from ..util import *
from ..lib import shape, size_of, sizeloc
from ..terms import LOCOPS

TECHNIQUE = 'interprocedural dataflow with symbolic bounds facts over every Update overload and the forwarding chain'
RULE = ('For every coefficient-update overload: each caller-supplied index is bounded below by 0 and above by the extent '
        'of the container it addresses on every path that uses it; a path returns success if and only if it stores a '
        'coefficient; the stored coefficient is the one the arguments address (row, column, variable, component in their '
        'roles, with the conjugate entry mirrored for matrix cones) and receives exactly the value argument; existing '
        'coefficients are otherwise kept. The public update calls hand their arguments, in order, to the overload of the '
        'addressed constraint and return its status.')

ROLES = {'UpdateLinearOperator': ('var', 'r', 'c', 'dim'), 'UpdateAffineTerm': ('r', 'c', 'dim')}
PRIMARY = {('var', 'dim', 'r', 'c'), ('dim', 'var', 'r', 'c'), ('r', 'var'), ('r',), ('dim', 'r', 'c'), ('r', 'c'), ('var', 'r')}


class Rec(Client):
    by_value = True

    def __init__(self):
        self.idx, self.wr, self.push = [], [], []

    def on_index(self, I, st, e, L, idx, n, kind):
        if I.mute:
            return
        v = st.read(L) if kind == 'eigen' else None
        if kind == 'eigen':
            ext = (eshape(v, 0), eshape(v, 1)) if len(idx) == 2 else (mul(eshape(v, 0), eshape(v, 1)),)
        else:
            ext = n
        self.idx.append((st.fork(), L, idx, ext, kind, e.get('l', '')))

    def on_write(self, I, st, loc, val, node, op):
        if I.mute or root(loc).op != 'pt':
            return
        st.cs['w'] = 1
        if op in ('push_back', 'emplace_back') and loc.op == 'f':
            self.push.append((st.fork(), loc.a[0], sub(val, ONE)))
        self.wr.append((st.fork(), loc, val, op, node.get('l', '')))


def path_of(loc):
    """(field, [indices]) of an element location."""
    ix = []
    while loc.op in ('e', 'f', 'view'):
        if loc.op == 'e' and loc.a[0].op == 'view' and len(loc.a) == 2 and loc.a[0].a[1] in ('row', 'col'):
            v = loc.a[0]
            pair = [strip_int(v.a[2]), strip_int(loc.a[1])]
            ix = (pair if v.a[1] == 'row' else pair[::-1]) + ix
            loc = v
        elif loc.op == 'e':
            ix = [strip_int(x) for x in loc.a[1:]] + ix
        elif loc.op == 'f':
            return loc, ix
        else:
            return None, ix
        loc = loc.a[0]
    return loc, ix


def eshape(v, w):
    if v.op == 'get' and v.a[1] == 'e':
        els, b = [], v.a[0]
        for _ in range(200):
            if b.op == 'upd' and b.a[1] == 'e':
                els.append(b.a[3])
                b = b.a[0]
            elif b.op == 'upd':
                b = b.a[0]
            elif b.op == 'agg':
                els += [x for _, x in b.a[1] if x.op != 'c' and x.op != 'var']
                b = b.a[0]
            else:
                break
        if b.op == 'arr':
            els += [x for x in b.a if isinstance(x, T) and not isc(x)]
        elif b.op not in ('Zero',):
            return shape(v, w)
        sh = {shape(x, w) for x in els if ismat_(x)}
        if len(sh) == 1:
            return sh.pop()
    return shape(v, w)


def ismat_(x):
    return x.op in ('Zero', 'mat0', 'Identity', 'shaped', 'upd')


def creations(P, rec):
    """Final states of the class's own constructors."""
    out = []
    for f in P.fns.values():
        if f.j.get('ctor') and f.rec == rec and f.body is not None and not f.j.get('copy') and not f.j.get('move') \
                and not f.j.get('implicit'):
            L = mk('heap', 'new ' + f.key)
            st = State()
            try:
                I = Interp(P)
                args = []
                for p in f.params:
                    args.append(I.param_symbol(f, p)) if False else args.append(None)
                for o in I.run(f, this=L):
                    if o.kind == 'ret':
                        out.append((f, o.st, L))
            except Undecided:
                pass
            except Exception:
                pass
    return out


def growth(R, kb, f, outs, base):
    """Columns a container gains by growing are given a value before the call reports success."""
    for o in outs:
        if o.kind != 'ret':
            continue
        for L, v in o.st.store.items():
            if not isinstance(v, T) or not any(x.op == 'shaped' for x in subterms(v)) or root(L).op != 'pt':
                continue
            for fc, w in cases(o.st.facts, v):
                if fc.eval(tobool(o.val)) is not False:
                    continue
                layers = []
                while w.op == 'upd':
                    layers.append(w)
                    w = w.a[0]
                if w.op != 'shaped':
                    continue
                gained = sub(w.a[2], shape(w.a[0], 1))
                if fc.eval(eq0(gained)) is True:
                    continue
                ok, unclear = False, False
                for u in layers:
                    k, ix = u.a[1], u.a[2]
                    if k == 'rightCols':
                        ok = ok or fc.entails_ge0(sub(ix[0], gained))
                    elif k == 'col':
                        ok = ok or fc.eval(eq0(sub(gained, ONE))) is True
                    elif k != 'e':
                        unclear = True
                    if any(x.op in ('ix', 'lp') for x in subterms(u)):
                        unclear = True
                R.verdict(True if ok else None if unclear else False, kb + ':growth-initialised', f.loc,
                          '%s gains %s columns, not all of them are given a value' % (show(L), show(gained)))


def inst(t, base, st, L):
    """Rewrite a term over the initial state of *base as its value in a created object."""
    def reloc(l):
        if l is base:
            return L
        if l.op in ('f', 'e'):
            p = reloc(l.a[0])
            return None if p is None else mk(l.op, p, *l.a[1:])
        return None
    mp = {}
    subs = list(subterms(t))
    for x in subs:
        if x.op in ('rows', 'cols') and x.a[0].op == 'i':
            l = reloc(x.a[0].a[0])
            if l is not None:
                mp[x] = eshape(st.readagg(l) if False else st.read(l), 0 if x.op == 'rows' else 1)
    for x in subs:
        if x.op == 'i' and x not in mp:
            l = reloc(x.a[0])
            if l is not None:
                mp[x] = size_of(None, st, l.a[0]) if l.op == 'f' and l.a[1] == '#n' else st.read(l)
    return subst(t, mp)


def upper(st, x, params):
    """Upper bounds S (x <= S) known for x that mention no parameter."""
    out = []
    for p in st.facts.ge:
        d = add(p, x)                  # p = S - x  ->  S
        if any(y in params for y in subterms(d)):
            continue
        out.append(d)
    return out


def check_overload(P, R, f, creat_cache):
    pn = [p['n'] for p in f.params]
    roles = ROLES[f.short]
    rec = f.tu.t(f.tu.t(f.params[0]['t'])['p'])['s'].replace('conex::', '').replace('(anonymous namespace)::', '') if 'p' in f.tu.t(f.params[0]['t']) else f.tu.t(f.params[0]['t'])['s']
    kb = '%s(%s)' % (f.short, rec)
    cl = Rec()
    I = Interp(P, cl)
    try:
        outs = I.run(f)
    except Undecided as e:
        R.und(kb, f.loc, str(e))
        return 0
    base = mk('pt', mk('p', pn[0]))
    val = mk('p', pn[1])
    ps = {mk('p', n): r for n, r in zip(pn[2:], roles) if n}
    # (b) success <=> stored
    for o in outs:
        if o.kind != 'ret':
            R.und(kb + ':throws', f.loc, 'a path leaves by exception')
            continue
        ok = o.st.facts.eval(tobool(o.val)) if not isc(o.val) else bool(cval(o.val))
        w = bool(o.st.cs.get('w'))
        if ok is None:
            R.und(kb + ':status', f.loc, show(o.val))
        elif ok and w:
            R.bad(kb + ':reject-without-write', f.loc, 'a path that reports failure has already modified the constraint')
        elif not ok and not w:
            R.bad(kb + ':success-stores', f.loc, 'a path reports success without storing the coefficient')
        else:
            R.ok(kb + (':reject-without-write' if ok else ':success-stores'), f.loc)
    # (a) bounds
    n = 0
    for st, L, idx, ext, kind, loc in cl.idx:
        for k, x in enumerate(idx):
            x = strip_int(x)
            us = [p for p in ps if any(y is p for y in subterms(x))]
            if not us or root(L).op != 'pt':
                continue
            n += 1
            key = '%s:index-%s' % (kb, ps.get(x, ps[us[0]]))
            if not st.facts.entails_ge0(x):
                R.bad(key + ':lower', loc, '%s is used as an index without being checked against 0' % show(x))
            else:
                R.ok(key + ':lower', loc)
            E = ext[k] if ext and k < len(ext) else None
            if E is not None and st.facts.entails_ge0(sub(sub(E, ONE), x)):
                R.ok(key + ':upper', loc, '%s < %s' % (show(x), show(E)))
                continue
            ub = upper(st, x, set(ps))
            if not ub:
                R.bad(key + ':upper', loc, '%s is used as an index of %s without an upper bound' % (show(x), show(L)))
                continue
            v = None
            cands = []
            if E is not None:
                cands.append((E, lambda S: S, 'its extent'))
                for pst, PF, at in cl.push:
                    F, ix = path_of(L)
                    if F is PF and ix:
                        pl = mk('e', PF, at)
                        for y in ix[1:]:
                            pl = mk('e', pl, y)
                        X = size_of(I, pst, pl) if kind != 'eigen' else eshape(pst.read(pl), k)
                        cands.append((X, lambda S: S, 'the extent of the elements it appends'))
                for cf, cst, CL in creat_cache(f):
                    if any(st.facts.eval(ge0(inst(p, base, cst, CL))) is False for p in st.facts.ge):
                        continue
                    cands.append((inst(E, base, cst, CL), lambda S, c=cst, l=CL: inst(S, base, c, l), 'the extent after construction'))
            for X, f_, what in cands:
                best = None
                for S in ub:
                    d = sub(sub(X, ONE), f_(S))
                    if isc(d):
                        best = max(best, cval(d)) if best is not None else cval(d)
                if best is None:
                    continue
                if best < 0:
                    v = False
                    R.bad(key + ':upper', loc, '%s may reach %s, %s is %s' % (show(x), ' / '.join(show(S) for S in ub), what, show(X)))
                    break
                elif v is None:
                    v = True
            if v is not False:
                R.ok(key + ':upper', loc, 'bounded by %s%s' % (show(ub[0]), '' if v else ' (extent itself fixed by the caller at construction)'))
    # (c) what is stored
    nel = 0
    mirror = 'HermitianPsd' in rec
    prim = mir = False
    for st, L, v, op, loc in cl.wr:
        F, ix = path_of(L)
        if op in ('push_back', 'emplace_back', 'conservativeResize'):
            if op != 'conservativeResize':
                continue
            # growing: every old column survives
            o = v
            if o.op == 'shaped':
                old = o.a[0]
                for w in (0, 1):
                    d = sub(o.a[1 + w], shape(old, w))
                    f2 = st.facts
                    R.verdict(True if (f2.entails_ge0(d) or w == 0) else False, kb + ':growth-keeps', loc,
                              'the container is resized from %s to %s' % (show(shape(old, w)), show(o.a[1 + w])))
            continue
        if L.op == 'view':
            b, k = L.a[0], L.a[1]
            cur = st.read(b)
            while cur.op == 'upd':
                cur = cur.a[0]
            if k == 'rightCols' and cur.op == 'shaped':
                grown = sub(cur.a[2], shape(cur.a[0], 1))
                if st.facts.entails_ge0(sub(grown, L.a[2])):
                    R.ok(kb + ':growth-keeps', loc, 'only the %s new columns are initialised' % show(grown))
                else:
                    R.bad(kb + ':growth-keeps', loc, '%s columns are reinitialised although only %s are new' % (show(L.a[2]), show(grown)))
            else:
                R.und(kb + ':growth-keeps', loc, show(L))
            continue
        if not any(x in ps or True for x in ix) or not ix:
            # whole-container store: must have been empty
            old = None
            for s0, l0, *_ in []:
                pass
            emp = st.facts.eval(eq0(mk('i', sizeloc(L))))
            if emp is None:
                i0 = mk('i', L)
                emp = st.facts.eval(eq0(mul(mk('rows', i0), mk('cols', i0))))
            if op in ('=', 'setZero', 'resize', 'clear', 'setConstant'):
                if v is not None and isinstance(v, T) and mentions(v, lambda x: x is L):
                    R.und(kb + ':keeps-others', loc, 'rebuilt from the old coefficients: ' + show(v))
                elif emp:
                    R.ok(kb + ':keeps-others', loc, 'initialises an empty container')
                else:
                    R.bad(kb + ':keeps-others', loc, 'replaces all coefficients of %s' % show(L))
            else:
                R.und(kb + ':keeps-others', loc, op + ' ' + show(L))
            continue
        seq = tuple(ps.get(x) for x in ix)
        if None in seq:
            if op == 'clear' or any(isc(x) for x in ix):
                R.bad(kb + ':addressed', loc, 'stores into %s, which the arguments do not address' % show(L))
            else:
                R.und(kb + ':addressed', loc, show(L))
            continue
        nel += 1
        want = val
        sw = tuple({'r': 'c', 'c': 'r'}.get(s, s) for s in seq)
        isprim = seq in PRIMARY and seq != ('var', 'r')
        ismir = not isprim and sw in PRIMARY and sw != ('var', 'r')
        if len(seq) < len([r for r in roles if r != 'dim' and r != 'c']) or not (isprim or ismir):
            R.bad(kb + ':addressed', loc, 'stores at index order %s' % (seq,))
            continue
        if op != '=':
            R.verdict(False, kb + ':value', loc, 'the coefficient is combined (%s) with its old value' % op)
            continue
        if isprim:
            prim = True
            same = v is val or st.facts.eval(eq0(sub(v, val)))
            R.verdict(True if same else False, kb + ':value', loc, 'stores %s at %s' % (show(v), seq))
        else:
            mir = True
            dim = [p for p, r in ps.items() if r == 'dim']
            res = []
            for real in (True, False):
                fc = st.facts.copy()
                if dim and not fc.assume(eq0(dim[0]), real):
                    continue
                w = val if real else neg(val)
                vv = v
                while vv.op == 'ite':
                    e = fc.eval(vv.a[0])
                    if e is None:
                        break
                    vv = vv.a[1] if e else vv.a[2]
                s2 = subst(vv, {x: C(int(fc.eval(x))) for x in subterms(vv) if x.op in ('eq0', 'not', 'ge0') and fc.eval(x) is not None})
                res.append((real, s2 is w or fc.eval(eq0(sub(s2, w))), s2))
            for real, ok, s2 in res:
                R.verdict(True if ok else False, kb + ':mirror', loc, 'the mirrored entry receives %s when dim %s 0' % (show(s2), '==' if real else '!='))
    succ = any(o.kind == 'ret' and isc(o.val) and not cval(o.val) for o in outs)
    if succ:
        R.verdict(prim, kb + ':value', f.loc, 'no path stores the addressed coefficient')
        if mirror:
            R.verdict(mir, kb + ':mirror', f.loc, 'no path stores the conjugate entry')
    growth(R, kb, f, outs, base)
    # value passed for imaginary diagonal entries
    if mirror:
        pr, pc, pd = [next(p for p, r in ps.items() if r == q) for q in ('r', 'c', 'dim')]
        for o in outs:
            if o.kind == 'ret' and isc(o.val) and not cval(o.val):
                fc = o.st.facts.copy()
                bad = fc.assume(eq0(sub(pr, pc)), True) and fc.assume(ge0(sub(pd, ONE)), True) and fc.assume(eq0(val), False) and fc.consistent()
                R.verdict(not bad, kb + ':skew', f.loc, 'a nonzero imaginary diagonal entry is accepted')
    R.count('index uses checked', n)
    R.count('element stores checked', nel)
    return 1


class Fwd(Client):
    by_value = True

    def __init__(self, pred):
        self.pred, self.got = pred, []

    def call(self, I, st, node, name, obj, args):
        if self.pred(name):
            r = mk('b', 'call', mk('call', 'status', C(len(self.got))))
            a = [st.read(x) if x.op in LOCOPS else x for x in args]
            if not I.mute:
                self.got.append((st.fork(), obj, a, node.get('l', ''), r, name))
                st.cs['r'] = r
            return [(st, r)]
        return None


def status_of(v):
    while v.op in ('b', 'u', 'tobool') and len(v.a) == 1:
        v = v.a[0]
    return v


def check(P, R):
    cache = {}

    def creat(f):
        rec = f.tu.t(f.params[0]['t'])
        rn = f.tu.t(rec['p'])['r'] if 'p' in rec else ''
        if rn not in cache:
            cache[rn] = creations(P, rn)
        return cache[rn]
    n = 0
    for f in sorted(P.fns.values(), key=lambda f: f.key):
        if f.short in ROLES and f.body is not None and len(f.params) == len(ROLES[f.short]) + 2 and P.is_repo(f) and \
                not f.j.get('virt') and not (f.rec or '').endswith('Constraint::Model'):
            t = f.tu.t(f.params[0]['t'])
            if t['k'] != 'ptr' or 'conex::Constraint *' == t['s']:
                continue
            if not f.params[1]['n']:
                # generic fallback: must reject, must not touch anything
                cl = Rec()
                for o in Interp(P, cl).run(f):
                    R.verdict(o.kind == 'ret' and isc(o.val) and bool(cval(o.val)) and not o.st.cs.get('w'),
                              '%s(unsupported constraint)' % f.short, f.loc, 'a constraint without coefficients accepts an update')
                continue
            n += check_overload(P, R, f, creat)
    R.floor('update overloads', n, 6)

    # (d) forwarding chain
    m = 0
    for f in P.fns.values():
        if f.short in ('do_update_linear_operator', 'do_update_affine_term') and f.body is not None and '::Model<' in f.name + '<':
            tgt = 'UpdateLinearOperator' if 'linear' in f.short else 'UpdateAffineTerm'
            if 'Model' not in f.name:
                continue
            cl = Fwd(lambda nm: nm.split('::')[-1] in ROLES)
            I = Interp(P, cl)
            this = mk('heap', 'model')
            st = State()
            st._store(this, mk('i', this))
            outs = I.run(f, this=this)
            k = 'forward:%s' % f.name.replace('conex::', '').replace('(anonymous namespace)::', '')
            m += 1
            want = [mk('p', p['n']) for p in f.params]
            for s, o, a, l, r, nm in cl.got:
                R.verdict(nm.split('::')[-1] == tgt and a[1:] == want and a[0].op == 'i' and a[0].a[0].op == 'f',
                          k, l, 'calls %s(%s)' % (nm, ', '.join(show(x) for x in a)))
            if not cl.got:
                R.bad(k, f.loc, 'does not call %s' % tgt)
            for o in outs:
                if o.kind == 'ret':
                    R.verdict(status_of(o.val) in [status_of(g[4]) for g in cl.got], k + ':status', f.loc, show(o.val))
    R.floor('model forwarders', m, 10)
    spec = {'CONEX_UpdateLinearOperator': ('do_update_linear_operator', 2, [2, 3, 4, 5, 6]),
            'CONEX_UpdateAffineTerm': ('do_update_affine_term', 2, [2, 3, 4, 5]),
            'CONEX_UpdateQuadraticCostMatrix': ('do_update_affine_term', 2, [2, 3, 4, None])}
    for name, (virt, _, order) in spec.items():
        f = api(P, name)
        cl = Fwd(lambda nm: nm.split('::')[-1] in ('do_update_linear_operator', 'do_update_affine_term'))
        I = Interp(P, cl)
        outs = I.run(f)
        P_ = [mk('p', p['n']) for p in f.params]
        want = [ZERO if i is None else P_[i] for i in order]
        R.verdict(bool(cl.got), name + ':reaches', f.loc, 'no update is performed')
        for s, o, a, l, r, nm in cl.got:
            R.verdict(nm.endswith(virt) and a == want, name + ':arguments', l, '%s(%s)' % (nm, ', '.join(show(x) for x in a)))
            # which element of the constraint list
            els = [x for x in subterms(o) if x.op == 'e' and x.a[0].op == 'f' and x.a[0].a[1] == 'eqs']
            ok = None
            for x in els:
                d = sub(strip_int(x.a[1]), P_[1])
                ok = s.facts.eval(eq0(d))
                if ok is None:
                    ok = False
            R.verdict(ok, name + ':constraint', l, 'updates %s' % show(o))
        for o in outs:
            if o.kind != 'ret':
                continue
            r = o.st.cs.get('r')
            if r is None:
                R.verdict(True if isc(o.val) and cval(o.val) != 0 else None if not isc(o.val) else False, name + ':reports', f.loc,
                          'returns %s although no update was performed' % show(o.val))
            else:
                v = status_of(o.val)
                R.verdict(True if v in [status_of(g[4]) for g in cl.got] else (False if isc(v) else None), name + ':reports', f.loc,
                          'returns %s instead of the status of the update' % show(o.val))
