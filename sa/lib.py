"""Effects and value numbering of library calls (STL containers, Eigen)."""
from .terms import *
from .terms import _byid
from .engine import LOCOPS, fieldval, select

PLAIN = ('Eigen::Matrix', 'Eigen::Array', 'Eigen::PlainObjectBase')
VIEWS = {'col', 'row', 'head', 'tail', 'segment', 'block', 'topRows', 'bottomRows',
         'leftCols', 'rightCols', 'middleRows', 'middleCols', 'topLeftCorner',
         'bottomRightCorner', 'topRightCorner', 'bottomLeftCorner', 'diagonal',
         'triangularView', 'selfadjointView', 'reshaped', 'rowwise', 'colwise',
         'leftCols', 'rightCols'}
IDENT = {'array', 'matrix', 'noalias', 'derived', 'const_cast_derived', 'eval', 'nestedExpression',
         'const_derived'}
SETTERS = {'setZero': 'Zero', 'setIdentity': 'Identity', 'setOnes': 'Ones', 'setConstant': 'Constant',
           'fill': 'Constant'}
STATICS = {'Zero', 'Ones', 'Identity', 'Constant'}
SEQ = ('std::vector', 'std::list', 'std::deque', 'std::array', 'std::initializer_list',
       'std::__cxx11::list', 'std::set', 'std::_Vector_base')


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'tmp', 'load', 'defarg') and n.get('e'):
        if n['k'] == 'cast' and n.get('ck') not in ('UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived'):
            break
        n = n['e']
    return n


def rec(I, n):
    n = strip(n)
    t = I.ty(n)
    return t.get('r') or ''


def iseigen(I, n):
    return rec(I, n).startswith('Eigen::')


def isplain(I, n):
    return rec(I, n) in PLAIN


def content_loc(I, st, v, n=None):
    """Memory that holds the coefficients denoted by v (Loc or handle value)."""
    if v.op in LOCOPS:
        if v.op in ('mat', 'view'):
            return v
        if n is not None and isplain(I, n):
            return v
        val = st.store.get(v)
        if val is None:
            val = st.read(v)
        if n is not None and not iseigen(I, n):
            return v
        return handle_loc(val, v)
    if v.op in ('map', 'lref'):
        return handle_loc(v, None)
    return None


def handle_loc(val, l):
    if val.op == 'map':
        return mk('mat', val.a[0])
    if val.op == 'lref':
        return val.a[0]
    if val.op == 'ite':
        x, y = handle_loc(val.a[1], l), handle_loc(val.a[2], l)
        if x is y:
            return x
        return mk('lite', val.a[0], x, y)
    if val.op in ('i', 'fv', 'lp', 'p', 'get', 'out', 'h'):
        return mk('mat', mk('fv', val, 'data') if val.op != 'i' else mk('i', mk('f', val.a[0], 'data')))
    return l


def mval(I, st, v, n=None):
    """Matrix value of an Eigen expression."""
    if v.op in LOCOPS:
        if n is not None and not iseigen(I, n):
            return st.readagg(v)
        l = content_loc(I, st, v, n)
        if l.op == 'mat':
            I.C.on_matread(I, st, l, st.store.get(v))
        return st.read(l)
    if v.op in ('map', 'lref'):
        l = handle_loc(v, None)
        if l.op == 'mat':
            I.C.on_matread(I, st, l, v)
        x = st.read(l)
        return x
    return v


def rd(I, st, v, n):
    """Value of an argument (reads through references and handles)."""
    if n is not None and iseigen(I, n):
        return mval(I, st, v, n)
    if v.op in LOCOPS:
        return st.readagg(v)
    return v


# ---- shapes ---------------------------------------------------------------
def shape(v, w, d=0):
    """rows (w=0) / cols (w=1) of a matrix value."""
    if d > 60:
        return mk(('rows', 'cols')[w], v)
    o = v.op
    S = lambda x, k=w: shape(x, k, d + 1)
    if o == 'mat0':
        return v.a[1 + w]
    if o in ('Zero', 'Identity', 'Ones', 'Constant'):
        return v.a[w]
    if o == 'upd':
        return S(v.a[0])
    if o == 'shaped':
        return v.a[1 + w]
    if o == 'map':
        return v.a[1 + w]
    if o == 'T':
        return S(v.a[0], 1 - w)
    if o == 'mm':
        return S(v.a[0]) if w == 0 else S(v.a[1])
    if o in ('cw', 'cwdiv'):
        return S(v.a[0])
    if o == 'poly':
        for m, c in v.a[0]:
            for i, p in m:
                t = _byid[i]
                if ismat(t):
                    return S(t)
        for m, c in v.a[0]:
            if len(m) == 1 and m[0][1] == 1 and not isscalar(_byid[m[0][0]]):
                return S(_byid[m[0][0]])      # a lone factor of a matrix expression is the matrix
        return mk(('rows', 'cols')[w], v)
    if o == 'ite':
        return ite(v.a[0], S(v.a[1]), S(v.a[2]))
    if o == 'get':
        k = v.a[1]
        a = v.a[2:]
        b = v.a[0]
        if k == 'col':
            return S(b) if w == 0 else ONE
        if k == 'row':
            return ONE if w == 0 else S(b)
        if k in ('head', 'tail') and len(a) == 1:
            return a[0] if w == 0 else ONE
        if k == 'segment' and len(a) == 2:
            return a[1] if w == 0 else ONE
        if k in ('topRows', 'bottomRows') and len(a) == 1:
            return a[0] if w == 0 else S(b)
        if k in ('leftCols', 'rightCols') and len(a) == 1:
            return a[0] if w == 1 else S(b)
        if k == 'block' and len(a) == 4:
            return a[2 + w]
        if k in ('topLeftCorner', 'bottomRightCorner', 'topRightCorner', 'bottomLeftCorner') and len(a) == 2:
            return a[w]
        if k.startswith('triangularView') or k.startswith('selfadjointView'):
            return S(b)
    if o in ('out', 'mutk'):
        return S(v.a[0]) if o == 'mutk' else mk(('rows', 'cols')[w], v)
    return mk(('rows', 'cols')[w], v)


MATOPS = {'mat0', 'Zero', 'Identity', 'Ones', 'Constant', 'upd', 'T', 'mm', 'cw', 'cwdiv', 'shaped', 'mutk', 'map'}


def ismat(t):
    return t.op in MATOPS or (t.op == 'get' and t.a[1] != 'e') or t.op == 'i' and False


def mm(x, y):
    # pull scalar factors out of single-term operands
    cx, ax = scalar_split(x)
    cy, ay = scalar_split(y)
    return mul(mul(cx, cy), mk('mm', ax, ay))


def scalar_split(x):
    if x.op != 'poly':
        return ONE, x
    items = x.a[0]
    if len(items) == 1:
        m, c = items[0]
        mats = [(i, p) for i, p in m if ismat(_byid[i])]
        if len(mats) == 1 and mats[0][1] == 1:
            s = pterm({tuple(q for q in m if q != mats[0]): c})
            return s, _byid[mats[0][0]]
        return C(c) if c != 1 else ONE, pterm({m: 1})
    return ONE, x


def tr(x):
    if x.op == 'T':
        return x.a[0]
    if x.op == 'poly' and all(sum(1 for i, _ in m if ismat(_byid[i])) == 1 for m, _ in x.a[0]):
        r = ZERO
        for m, c in x.a[0]:
            sc, a = scalar_split(pterm({m: c}))
            r = add(r, mul(sc, tr(a)))
        return r
    return mk('T', x)


# ---- containers -----------------------------------------------------------
def sizeloc(L):
    return mk('f', L, '#n')


def size_of(I, st, L):
    v = st.read(sizeloc(L))
    if v.op == 'fv' and v.a[0].op == 'arr':
        return C(len(v.a[0].a))
    return v


def onidx(I, st, e, L, idx, n, kind):
    h = getattr(I.C, 'on_index', None)
    if h:
        h(I, st, e, L, idx, n, kind)


def construct(I, st, e, vs):
    """Library constructor -> [(state, value)]."""
    r = I.ty(e).get('r') or ''
    a = e['a']
    name = e['n']
    I.C.on_call(I, st, e, name, None, vs)
    if r.startswith('Eigen::'):
        if r in ('Eigen::Map',):
            if len(vs) >= 1 and a and I.ty(strip(a[0]))['k'] == 'ptr' or (a and a[0]['k'] in ('null',)):
                ps = [rd(I, st, v, n) for v, n in zip(vs, a)]
                p = ps[0]
                dims = ps[1:3]
                real = [x for x, n in zip(dims, a[1:3]) if n['k'] != 'defarg']
                if len(real) == 2:
                    r_, c_ = real
                elif len(real) == 1:
                    r_, c_ = real[0], ONE
                else:
                    r_, c_ = mk('rows', p), mk('cols', p)
                I.C.on_map(I, st, p, r_, c_, e)
                return [(st, mk('map', p, r_, c_))]
            if len(vs) == 1:
                v = vs[0]
                return [(st, st.read(v) if v.op in LOCOPS else v)]
        if r in ('Eigen::Ref', 'Eigen::Block', 'Eigen::VectorBlock'):
            if vs:
                l = content_loc(I, st, vs[0], a[0])
                if l is not None:
                    return [(st, mk('lref', l))]
                return [(st, vs[0])]
        if r in PLAIN:
            if not vs:
                return [(st, mk('mat0', 0, ZERO, ZERO))]
            ks = [I.ty(strip(x))['k'] for x in a]
            ivals = [rd(I, st, v, n) for v, n in zip(vs, a)]
            if all(k in ('int', 'uint', 'enum') for k in ks):
                if len(vs) == 1:
                    t = I.ty(e)
                    ta = t.get('ta') or []
                    vec = len(ta) > 2 and ta[2] == 1
                    return [(st, mk('mat0', 0, ivals[0], ONE if vec or True else ZERO))]
                if len(vs) == 2:
                    return [(st, mk('mat0', 0, ivals[0], ivals[1]))]
            if len(vs) == 1:
                return [(st, mval(I, st, vs[0], a[0]))]
            return [(st, mk('call', 'Eigen ctor', *ivals))]
        # decompositions etc.
        ivals = [rd(I, st, v, n) for v, n in zip(vs, a)]
        return [(st, mk('call', 'ctor ' + r, *ivals))]
    if r.startswith(SEQ) or r == 'std::vector':
        ks = [I.ty(strip(x))['k'] for x in a]
        real = [(v, n) for v, n in zip(vs, a) if n['k'] != 'defarg' and 'allocator' not in (I.ty(n).get('r') or '')]
        path = mk('path', mk('f', '#n'))
        if not real:
            return [(st, mk('agg', mk('arr'), ((path, ZERO),)))]
        v0 = rd(I, st, real[0][0], real[0][1])
        k0 = I.ty(strip(real[0][1]))['k']
        if len(real) == 1 and k0 in ('int', 'uint'):
            if isc(v0) and 0 <= v0.a[0] <= 64:
                return [(st, mk('agg', mk('arr', *([ZERO] * int(v0.a[0]))), ((path, v0),)))]
            return [(st, mk('agg', mk('Zero', v0, ONE), ((path, v0),)))]
        if len(real) == 2 and k0 in ('int', 'uint'):
            x = rd(I, st, real[1][0], real[1][1])
            return [(st, mk('agg', mk('fillv', v0, x), ((path, v0),)))]
        if v0.op == 'arr':
            return [(st, mk('agg', v0, ((path, C(len(v0.a))),)))]
        if len(real) == 1:
            return [(st, v0)]
        return [(st, mk('call', 'ctor ' + r, *[rd(I, st, v, n) for v, n in real]))]
    if 'unique_ptr' in r or 'shared_ptr' in r:
        if not vs:
            return [(st, ZERO)]
        v0 = rd(I, st, vs[0], a[0])
        return [(st, v0)]
    if len(vs) == 1 and I.ty(e)['s'] == I.ty(strip(a[0]))['s'].replace('const ', ''):
        return [(st, rd(I, st, vs[0], a[0]))]
    return [(st, mk('call', 'ctor ' + (r or name), *[rd(I, st, v, n) for v, n in zip(vs, a)]))]


def ret(I, e, st, v):
    """Wrap a value for an lvalue-returning call."""
    return [(st, v)]


def call(I, st, e, fn, name, obj, vals):
    short = name.split('::')[-1]
    a = e['a']
    lv = e.get('lv')
    op = e.get('op')
    if op is None and short.startswith('operator') and not short[8:9].isalnum() and short[8:9] not in (' ', '_', ''):
        op = short[8:]
    on = e.get('o')
    orec = rec(I, on) if on is not None else ''
    if name in ('std::move', 'std::forward'):
        return [(st, vals[0])]
    if e.get('fn') is None and 'callee' in e:
        return opaque(I, st, e, name, obj, vals)
    if not e.get('repo') or orec.startswith('std::'):
        if orec.startswith('std::') and ('unique_ptr' in orec or 'shared_ptr' in orec):
            pv = st.read(obj) if obj.op in LOCOPS else obj
            if op == '->' or short == 'get':
                return [(st, pv)]
            if op == '*':
                I.C.on_access(I, st, deref(pv), e)
                return [(st, deref(pv))]
            if short == 'operator bool':
                return [(st, tobool(pv))]
            if op == '=':
                v = rd(I, st, vals[0], a[0])
                st.write(obj, v)
                I.C.on_write(I, st, obj, v, e, '=')
                return [(st, obj)]
            if short == 'reset':
                v = rd(I, st, vals[0], a[0]) if vals and a[0]['k'] != 'defarg' else ZERO
                st.write(obj, v)
                I.C.on_write(I, st, obj, v, e, 'reset')
                return [(st, mk('void'))]
        if name in ('std::make_unique', 'std::make_shared'):
            return make_unique(I, st, e, vals)
        if (orec.startswith(SEQ) or name.startswith(SEQ)) and obj is not None:
            r = seqcall(I, st, e, short, op, obj, vals)
            if r is not None:
                return r
        if orec.startswith('Eigen::') or (obj is None and name.startswith('Eigen::')) or \
                (op and any(iseigen(I, x) for x in a)):
            r = eigencall(I, st, e, name, short, op, obj, vals)
            if r is not None:
                return r
        if obj is None and name.startswith('std::') and short in ALGO:
            r = algorithm(I, st, e, short, vals)
            if r is not None:
                return r
        if short in ('max', 'min') and len(vals) == 2 and name.startswith('std::'):
            x, y = [rd(I, st, v, n) for v, n in zip(vals, a)]
            flt = I.ty(a[0])['k'] == 'float'
            c = cmp('<', x, y, flt)
            r = ite(c, y, x) if short == 'max' else ite(c, x, y)
            ev = st.facts.eval(c)
            if ev is not None:
                r = (y if ev else x) if short == 'max' else (x if ev else y)
            if lv:
                t = I.newtmp()
                st.write(t, r)
                return [(st, t)]
            return [(st, r)]
        if short in ('sqrt', 'fabs', 'abs', 'pow', 'exp', 'log', 'cos', 'sin', 'isnan', 'isfinite', 'isinf') and obj is None:
            vs = [rd(I, st, v, n) for v, n in zip(vals, a)]
            return [(st, mk('call', short, *vs))]
        if 'basic_ostream' in (I.ty(e).get('r') or '') or 'basic_ostream' in orec:
            return [(st, obj if obj is not None else (vals[0] if vals else mk('void')))]
        if op == '=' and obj is not None and obj.op in LOCOPS and len(vals) == 1:
            v = rd(I, st, vals[0], a[0])
            st.write(obj, v)
            I.C.on_write(I, st, obj, v, e, '=')
            return [(st, obj)]
        if name == 'std::numeric_limits::max' or name.startswith('std::numeric_limits::'):
            return [(st, mk('limit', short, I.ty(e)['s']))]
    if op == '=' and obj is not None and obj.op in LOCOPS and len(vals) == 1 and \
            (fn is None or fn.j.get('implicit') or fn.j.get('defaulted')) and \
            I.ty(strip(on))['s'].replace('const ', '') == I.ty(strip(a[0]))['s'].replace('const ', ''):
        # implicit copy / move assignment
        v = rd(I, st, vals[0], a[0])
        st.write(obj, v)
        I.C.on_write(I, st, obj, v, e, '=')
        return [(st, obj)]
    return opaque(I, st, e, name, obj, vals)


ALGO = {'any_of': 3, 'all_of': 3, 'none_of': 3, 'for_each': 3, 'find_if': 3, 'count_if': 3, 'fill': 3, 'accumulate': 3}


def algorithm(I, st, e, short, vals):
    """Standard algorithms over a range of one container, as the loop they stand for."""
    if len(vals) < 3:
        return None
    a = e['a']
    ends = []
    for v, n in zip(vals[:2], a):
        v = rd(I, st, v, n)
        if v.op != '&' or v.a[0].op != 'e' or len(v.a[0].a) != 2:
            return None
        ends.append(v.a[0])
    if ends[0].a[0] is not ends[1].a[0]:
        return None
    L, lo, hi = ends[0].a[0], ends[0].a[1], ends[1].a[1]
    n = sub(hi, lo)
    lam = None
    if short not in ('fill', 'accumulate') or len(vals) > 3:
        lam = vals[2] if short != 'accumulate' else vals[3]
        for _ in range(4):
            if lam.op in LOCOPS:
                lam = st.read(lam)
        if lam.op != 'lam' or I.P.fns.get(lam.a[0]) is None:
            return None
        lf = I.P.fns[lam.a[0]]
    res = I.newtmp()
    if short == 'accumulate':
        st.write(res, rd(I, st, vals[2], a[2]))
    elif short == 'find_if':
        st.write(res, mk('&', mk('e', L, hi)))
    else:
        st.write(res, ONE if short in ('all_of', 'none_of') else ZERO)

    def apply(s, vs):
        args = []
        for p, v in zip(lf.params, vs):
            args.append(v if lf.tu.t(p['t']).get('ref') or v.op not in LOCOPS else s.read(v))
        this = lam.a[2] if lam.a[2] is not ZERO else None
        return I.invoke(lf, s, this, args, e, env=lam.a[1])

    def body(ix):
        el = mk('e', L, add(lo, ix))

        def go(sts, R):
            for s in sts:
                if short == 'fill':
                    v = rd(I, s, vals[2], a[2])
                    s.write(el, v)
                    I.C.on_write(I, s, el, v, e, '=')
                    R['n'].append(s)
                elif short == 'for_each':
                    R['n'] += [x for x, _ in apply(s, [el])]
                elif short == 'accumulate':
                    if lam is None:
                        s.write(res, add(s.read(res), s.read(el)))
                        R['n'].append(s)
                    else:
                        cur = I.newtmp()
                        s.write(cur, s.read(res))
                        for x, v in apply(s, [cur, el]):
                            x.write(res, v)
                            R['n'].append(x)
                else:
                    for x, v in apply(s, [el]):
                        c = tobool(v)
                        y = x.fork()
                        if y.assume(c, True):
                            if short == 'count_if':
                                y.write(res, add(y.read(res), ONE))
                            elif short in ('any_of', 'find_if'):
                                y.write(res, ONE if short == 'any_of' else mk('&', el))
                            elif short == 'none_of':
                                y.write(res, ZERO)
                            R['b' if short in ('any_of', 'none_of', 'find_if') else 'n'].append(y)
                        if x.assume(c, False):
                            if short == 'all_of':
                                x.write(res, ZERO)
                            R['b' if short == 'all_of' else 'n'].append(x)
        return {'k': 'py', 'f': go, 'l': e.get('l')}
    R = {'n': [], 'b': [], 'c': []}
    if isc(n) and 0 <= cval(n) <= 16:
        cur = [st]
        for i in range(int(cval(n))):
            r = I.stmt(body(C(i)), cur)
            R['n'] += r['b']
            cur = r['n']
            if not cur:
                break
        R['n'] += cur
    else:
        I.nloop += 1
        lid = I.nloop
        ix = mk('ix', lid, n)

        def pre(s):
            s.facts.assume(ge0(sub(sub(n, ix), ONE)), True)
            return [s]
        I.fix({'l': e.get('l')}, st, R, lid, ix, n, pre, lambda s: [s], None, body(ix))
    out = []
    for s in I.merge_many(R['n']) if len(R['n']) > 1 else R['n']:
        out.append((s, s.read(res) if short != 'for_each' else (vals[2])))
    return out


def make_unique(I, st, e, vals):
    I.ntmp += 1
    loc = mk('heap', I.ntmp)
    t = I.ty(e)
    ta = t.get('ta') or []
    T = I.fr.tu.t(ta[0]) if ta and isinstance(ta[0], int) else {}
    st.store[loc] = mk('new', loc)
    r = I.P.records.get(T.get('ru'))
    if r is not None:
        cands = []
        for f in I.P.fns.values():
            if f.j.get('ctor') and f.j.get('recu') == T.get('ru') and len(f.params) == len(vals) \
                    and not f.j.get('copy') and not f.j.get('move'):
                cands.append(f)
        if len(cands) == 1 and not I.C.opaque(cands[0]):
            f = cands[0]
            vs = []
            for p, v, n in zip(f.params, vals, e['a']):
                if f.tu.t(p['t']).get('ref'):
                    vs.append(v)
                else:
                    vs.append(rd(I, st, v, n))
            I.C.on_call(I, st, e, f.name, loc, vs)
            return [(s, mk('&', loc)) for s, _ in I.invoke(f, st, loc, vs, e)]
    vs = [rd(I, st, v, n) for v, n in zip(vals, e['a'])]
    st.store[loc] = mk('call', 'new ' + str(T.get('r')), *vs)
    return [(st, mk('&', loc))]


def seqcall(I, st, e, short, op, obj, vals):
    a = e['a']
    L = obj
    if L.op not in LOCOPS:
        t = I.newtmp()
        st._store(t, L)
        L = t
    n = size_of(I, st, L)
    if short == 'size':
        return [(st, n)]
    if short == 'empty':
        return [(st, cmp('==', n, ZERO, False))]
    if op == '[]' or short == 'at':
        i = rd(I, st, vals[0], a[0])
        onidx(I, st, e, L, (i,), (n,), 'at' if short == 'at' else '[]')
        return [(st, mk('e', L, i))]
    if short == 'front':
        onidx(I, st, e, L, (ZERO,), (n,), '[]')
        return [(st, mk('e', L, ZERO))]
    if short == 'back':
        i = sub(n, ONE)
        onidx(I, st, e, L, (i,), (n,), '[]')
        return [(st, mk('e', L, i))]
    if short in ('push_back', 'emplace_back'):
        el = mk('e', L, n)
        if len(vals) == 1:
            T = I.ty(a[0])
            et = elemtype(I, e['o'])
            same = short == 'push_back' or (et is not None and et['s'] == I.ty(strip(a[0]))['s'].replace('const ', ''))
            if same:
                v = rd(I, st, vals[0], a[0])
                st.write(el, v)
            else:
                r = emplace(I, st, e, el, vals, et)
                if r is not None:
                    for s in r:
                        s.store[sizeloc(L)] = add(n, ONE)
                        I.C.on_write(I, s, sizeloc(L), add(n, ONE), e, short)
                    return [(s, el if e.get('lv') else mk('void')) for s in r]
        else:
            et = elemtype(I, e['o'])
            r = emplace(I, st, e, el, vals, et)
            if r is not None:
                for s in r:
                    s.store[sizeloc(L)] = add(n, ONE)
                    I.C.on_write(I, s, sizeloc(L), add(n, ONE), e, short)
                return [(s, el if e.get('lv') else mk('void')) for s in r]
        st.store[sizeloc(L)] = add(n, ONE)
        I.C.on_write(I, st, sizeloc(L), add(n, ONE), e, short)
        return [(st, el if e.get('lv') else mk('void'))]
    if short == 'clear':
        st.clear(L)
        st._store(L, mk('agg', mk('arr'), ((mk('path', mk('f', '#n')), ZERO),)))
        I.C.on_write(I, st, L, ZERO, e, 'clear')
        return [(st, mk('void'))]
    if short == 'resize':
        v = rd(I, st, vals[0], a[0])
        st.store[sizeloc(L)] = v
        I.C.on_write(I, st, sizeloc(L), v, e, 'resize')
        return [(st, mk('void'))]
    if short == 'pop_back':
        st.store[sizeloc(L)] = sub(n, ONE)
        I.C.on_write(I, st, sizeloc(L), sub(n, ONE), e, short)
        return [(st, mk('void'))]
    if short == 'reserve':
        return [(st, mk('void'))]
    if short == 'data':
        return [(st, mk('&', mk('e', L, ZERO)))]
    if short in ('begin', 'cbegin'):
        return [(st, mk('&', mk('e', L, ZERO)))]
    if short in ('end', 'cend'):
        return [(st, mk('&', mk('e', L, n)))]
    if op == '=' and len(vals) == 1:
        v = rd(I, st, vals[0], a[0])
        if v.op == 'arr':
            v = mk('agg', v, ((mk('path', mk('f', '#n')), C(len(v.a))),))
        st.write(L, v)
        I.C.on_write(I, st, L, v, e, '=')
        return [(st, L)]
    return None


def elemtype(I, on):
    t = I.ty(strip(on))
    ta = t.get('ta') or I.ty(on).get('ta') or []
    if ta and isinstance(ta[0], int):
        return I.fr.tu.t(ta[0])
    return None


def emplace(I, st, e, el, vals, et):
    if et is None:
        return None
    ctors = [f for f in I.P.fns.values() if f.j.get('ctor') and f.j.get('recu') == et.get('ru')
             and len(f.params) == len(vals) and not f.j.get('copy') and not f.j.get('move')]
    if len(ctors) > 1:
        # pick by first argument type
        s0 = I.ty(strip(e['a'][0]))['s'].replace('const ', '')
        c2 = [f for f in ctors if f.tu.t(f.params[0]['t'])['s'].replace('const ', '').replace('&', '').strip() == s0.replace('&', '').strip()]
        ctors = c2
    st.store[el] = mk('new', el)
    if et.get('r') == 'Eigen::Map' and len(vals) == 3 and I.ty(strip(e['a'][0]))['k'] == 'ptr':
        p, r_, c_ = [rd(I, st, v, n) for v, n in zip(vals, e['a'])]
        I.C.on_map(I, st, p, r_, c_, e)
        st.write(el, mk('map', p, r_, c_))
        return [st]
    if len(ctors) == 1 and not I.C.opaque(ctors[0]):
        f = ctors[0]
        vs = []
        for p, v, n in zip(f.params, vals, e['a']):
            vs.append(v if f.tu.t(p['t']).get('ref') else rd(I, st, v, n))
        return [s for s, _ in I.invoke(f, st, el, vs, e)]
    st._store(el, mk('call', 'emplace', *[rd(I, st, v, n) for v, n in zip(vals, e['a'])]))
    return [st]


def eigencall(I, st, e, name, short, op, obj, vals):
    a = e['a']
    on = e.get('o')
    lv = e.get('lv')
    rt = I.ty(e)
    if obj is None and op and len(vals) in (1, 2):
        return eigen_op(I, st, e, op, list(zip(vals, a)))
    if obj is None:
        if short in STATICS or short in ('Random', 'NullaryExpr', 'LinSpaced', 'Unit'):
            vs = [rd(I, st, v, n) for v, n in zip(vals, a)]
            if short == 'Random':
                I.C.on_call(I, st, e, 'Eigen::Random', None, vs)
                return [(st, fresh('random'))]
            if short in STATICS:
                if short == 'Constant':
                    if len(vs) == 3:
                        return [(st, mk('Constant', vs[0], vs[1], vs[2]))]
                    return [(st, mk('Constant', vs[0], ONE, vs[1]))]
                if len(vs) == 1:
                    return [(st, mk(short, vs[0], ONE))]
                if len(vs) == 2:
                    return [(st, mk(short, vs[0], vs[1]))]
            return [(st, mk('call', short, *vs))]
        return None
    if op in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>=', '!'):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return [(st, mk('call', 'op' + op, mval(I, st, obj, on), *[rd(I, st, v, n) for v, n in zip(vals, a)]))]
        return eigen_op(I, st, e, op, [(obj, on)] + list(zip(vals, a)))
    L = content_loc(I, st, obj, on)
    if op in ('()', '[]') or short in ('coeff', 'coeffRef'):
        idx = [rd(I, st, v, n) for v, n in zip(vals, a)]
        if L is None:
            return [(st, select(st.facts, mval(I, st, obj, on), 'e', tuple(idx)))]
        el = mk('e', L, *idx)
        onidx(I, st, e, L, tuple(idx), None, 'eigen')
        if lv:
            return [(st, el)]
        I.C.on_access(I, st, el, e)
        return [(st, st.read(el))]
    if short in ('rows', 'cols', 'size', 'innerSize', 'outerSize', 'outerStride', 'innerStride'):
        if obj.op in LOCOPS and not isplain(I, on):
            hv = st.read(obj)
        elif obj.op in LOCOPS:
            hv = st.read(obj)
        else:
            hv = obj
        if hv.op == 'lref':
            hv = st.read(hv.a[0])
        if hv.op == 'lref':
            hv = st.read(hv.a[0])
        if short == 'rows':
            return [(st, shape(hv, 0))]
        if short == 'cols':
            return [(st, shape(hv, 1))]
        if short == 'size':
            return [(st, mul(shape(hv, 0), shape(hv, 1)))]
        return [(st, mk('call', short, hv))]
    if short == 'data':
        if L is not None and L.op == 'mat':
            return [(st, L.a[0])]
        if L is not None:
            return [(st, mk('&', mk('buf', L)))]
        return [(st, mk('call', 'data', mval(I, st, obj, on)))]
    if short in IDENT:
        if short == 'noalias':
            h = getattr(I.C, 'on_noalias', None)
            if h:
                h(I, st, L, e)
        if L is not None:
            return [(st, mk('lref', L))]
        return [(st, obj)]
    if short in ('transpose', 'adjoint'):
        return [(st, tr(mval(I, st, obj, on)))]
    if short in VIEWS:
        idx = [rd(I, st, v, n) for v, n in zip(vals, a)]
        kind = short
        if e.get('fta'):
            kind = short + '<' + ','.join(str(x) for x in e['fta']) + '>'
            if short in ('head', 'tail', 'segment', 'block', 'topRows', 'bottomRows', 'leftCols', 'rightCols') and any(isinstance(x, str) for x in e['fta']):
                kind = short
        elif short in ('triangularView', 'selfadjointView'):
            ta = rt.get('ta') or []
            kind = short + '<' + ','.join(str(x) for x in ta if isinstance(x, int)) + '>'
        h = getattr(I.C, 'on_view', None)
        if h:
            h(I, st, e, L, short, idx)
        if L is not None:
            return [(st, mk('lref', mk('view', L, kind, *idx)))]
        return [(st, mk('get', mval(I, st, obj, on), kind, *idx))]
    if op in ('=', '+=', '-=', '*=', '/=', '<<', ','):
        v = rd(I, st, vals[0], a[0])
        if op == ',':
            if L is not None:
                st.write(L, mk('comma', st.read(L), v))
            return [(st, obj)]
        if L is None:
            I.unknown.append(('eigen write to value', e.get('l')))
            return [(st, obj)]
        if op == '=' and not iseigen(I, a[0]) and v.op in LOCOPS:
            v = st.read(v)
        old = st.read(L)
        if op in ('=', '<<'):
            new = v
        else:
            pr = eigen_bin(I, st, op[0], old, v, 'Eigen::CwiseBinaryOp' if op != '*=' or not iseigen(I, a[0]) or is_array(I, on) else 'Eigen::Product',
                           (False, not iseigen(I, a[0])))
            new = pr
        I.prev = old
        st.write(L, new)
        I.C.on_write(I, st, L, new, e, op)
        return [(st, obj if lv else mk('lref', L))]
    if short in SETTERS and L is not None:
        vs = [rd(I, st, v, n) for v, n in zip(vals, a)]
        old = st.read(L)
        if short in ('setZero', 'setIdentity', 'setOnes'):
            if len(vs) == 2:
                new = mk(SETTERS[short], vs[0], vs[1])
            elif len(vs) == 1:
                new = mk(SETTERS[short], vs[0], ONE)
            else:
                new = mk(SETTERS[short], shape_of_loc(I, st, obj, on, 0), shape_of_loc(I, st, obj, on, 1))
        else:
            new = mk('Constant', shape_of_loc(I, st, obj, on, 0), shape_of_loc(I, st, obj, on, 1), vs[-1])
        I.prev = old
        st.write(L, new)
        I.C.on_write(I, st, L, new, e, short)
        return [(st, obj)]
    if short in ('resize', 'conservativeResize') and L is not None:
        vs = [rd(I, st, v, n) for v, n in zip(vals, a)]
        r_, c_ = (vs + [ONE])[:2]
        new = mk('mat0', 0, r_, c_) if short == 'resize' else mk('shaped', st.read(L), r_, c_)
        st.write(L, new)
        I.C.on_write(I, st, L, new, e, short)
        return [(st, mk('void'))]
    if short in ('rankUpdate',) and L is not None:
        vs = [rd(I, st, v, n) for v, n in zip(vals, a)]
        al = vs[1] if len(vs) > 1 else ONE
        if len(vs) == 3:
            upd = mul(vs[2], mk('rank2', *sorted(vs[:2], key=lambda t: t.id)))
        else:
            upd = mul(al, mm(vs[0], tr(vs[0])))
        new = add(st.read(L), upd)
        st.write(L, new)
        I.C.on_write(I, st, L, new, e, 'rankUpdate')
        return [(st, obj)]
    # generic
    vs = [rd(I, st, v, n) for v, n in zip(vals, a)]
    if e.get('cm') or obj.op not in LOCOPS and L is None:
        for v, n, t in zip(vals, a, e.get('pt', [])):
            havoc_arg(I, st, e, v, t, name, vs)
        return [(st, mk('call', short, mval(I, st, obj, on), *vs))]
    if short in ('begin', 'end'):
        return None
    L2 = L if L is not None else obj
    old = st.read(L2)
    new = mk('mutk', old, short, *vs)
    st.write(L2, new)
    I.C.on_write(I, st, L2, new, e, short)
    return [(st, obj if lv else mk('call', 'ret ' + short, old, *vs))]


def shape_of_loc(I, st, obj, on, w):
    hv = st.read(obj) if obj.op in LOCOPS else obj
    k = 0
    while hv.op == 'lref' and k < 5:
        hv = st.read(hv.a[0])
        k += 1
    return shape(hv, w)


def is_array(I, n):
    r = rec(I, n)
    return 'Array' in r


def eigen_op(I, st, e, op, ops):
    rcls = I.ty(e).get('r') or ''
    vs = [rd(I, st, v, n) for v, n in ops]
    sc = [not iseigen(I, n) for v, n in ops]
    if len(vs) == 1:
        if op == '-':
            return [(st, neg(vs[0]))]
        return [(st, mk('call', 'op' + op, *vs))]
    return [(st, eigen_bin(I, st, op, vs[0], vs[1], rcls, sc))]


def eigen_bin(I, st, op, x, y, rcls, sc=(False, False)):
    if op == '+':
        return add(x, y)
    if op == '-':
        return sub(x, y)
    if op == '*':
        if sc[0] or sc[1]:
            return mul(x, y)
        if rcls == 'Eigen::Product' or 'Product' in rcls:
            return mm(x, y)
        if rcls == 'Eigen::CwiseBinaryOp':
            xs, ys = ismat(x) or x.op in ('poly',), ismat(y)
            if isscalar(x) or isscalar(y):
                return mul(x, y)
            return mk('cw', *sorted((x, y), key=lambda t: t.id))
        return mm(x, y)
    if op == '/':
        if sc[1] or isscalar(y):
            return mul(x, inv(y))
        return mk('cwdiv', x, y)
    return mk('call', 'op' + op, x, y)


def isscalar(t):
    return t.op == 'c' or t.op == 'inv' or (t.op == 'call' and t.a[0] in ('sqrt', 'norm', 'dot', 'sum', 'trace', 'squaredNorm', 'maxCoeff', 'minCoeff'))


def mutable_arg(I, v, tidx):
    t = I.fr.tu.t(tidx)
    return bool(t.get('ref') == 1 and not t.get('const') and v.op in LOCOPS or
                t.get('k') == 'ptr' and not t.get('pconst') and not t.get('ref') and v.op not in LOCOPS and not isc(v))


def havoc_arg(I, st, e, v, tidx, name, inputs):
    t = I.fr.tu.t(tidx)
    if t.get('ref') and not t.get('const') and v.op in LOCOPS and t['ref'] == 1:
        new = mk('out', name, *inputs)
        st.havoc(v, new)
        I.C.on_write(I, st, v, new, e, 'out')
    elif t.get('k') == 'ptr' and not t.get('pconst') and not t.get('ref'):
        if v.op in LOCOPS:
            return
        if isc(v):
            return
        l = deref(v)
        new = mk('out', name, *inputs)
        st.havoc(l, new)
        I.C.on_write(I, st, l, new, e, 'out')


def opaque(I, st, e, name, obj, vals):
    """Unknown callee: result is a function of its inputs, mutable arguments are
    overwritten by a function of the inputs."""
    a = e['a']
    ins = []
    for v, n in zip(vals, a):
        if v.op in LOCOPS:
            x = rd(I, st, v, n)
        else:
            x = v
            if v.op in ('&',):
                x = mk('ptrto', v, st.readagg(deref(v)))
        ins.append(x)
    on = e.get('o')
    ov = None
    if obj is not None:
        ov = st.readagg(obj) if obj.op in LOCOPS else obj
        ins = [ov] + ins
    pts = e.get('pt', [])
    written = [i for i, (v, t) in enumerate(zip(vals, pts)) if mutable_arg(I, v, t)]
    for i, (v, t) in enumerate(zip(vals, pts)):
        # several outputs of one call are different functions of its inputs
        havoc_arg(I, st, e, v, t, name, ins + [mk('argno', C(i))] if len(written) > 1 else ins)
    if obj is not None and obj.op in LOCOPS and not e.get('cm') and not e.get('sm'):
        new = mk('out', name + ' this', *ins)
        st.havoc(obj, new)
        I.C.on_write(I, st, obj, new, e, 'out')
    r = mk('call', name, *ins)
    if I.ty(e)['k'] == 'bool':
        r = mk('b', 'call', r)
    if e.get('lv'):
        return [(st, mk('pt', mk('call', '&' + name, *ins)))]
    return [(st, r)]
