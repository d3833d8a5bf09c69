from ..engine import LOCOPS
from ..steps import *
from ..terms import BY_ID, pdict, scale
from .c12 import opts, SCRATCH, simplek

TECHNIQUE = 'symbolic dataflow of the eigenvalue summaries: definite assignment on every path and relations between the values of the fields'
RULE = ('PrepareStep (geodesic) writes normsqrd and norminfd, GetWeightedSlackEigenvalues of a kind of non-zero rank writes the extreme '
        'eigenvalues, trace and squared Frobenius norm, on every path and independently of what the structure held before; kinds of rank '
        'zero set both norms to zero. lambda_max is a maximum and lambda_min a minimum of one vector of eigenvalues; trace and '
        'frobenius_norm_squared are the traces of that matrix and of its square; norminfd is the larger of the absolute values at the two '
        'ends; normsqrd is the squared norm of the same direction.')

EIG = ('frobenius_norm_squared', 'trace', 'lambda_min', 'lambda_max')
NORM = ('normsqrd', 'norminfd')


def strip(t):
    """Element access that only selects the real part of an algebra element."""
    while t.op == 'get' and len(t.a) > 1 and t.a[1] == 'e':
        t = t.a[0]
    return t


def terms_of(v):
    """{monomial: coefficient} with monomials as tuples of (atom, power)."""
    return {tuple((BY_ID(i), p) for i, p in m): c for m, c in pdict(v).items()}


def callname(t):
    return t.a[0].split('::')[-1].split('<')[0] if t.op == 'call' and isinstance(t.a[0], str) else None


def extreme(v):
    """v = +-max/min of a vector: (kind, sign, vector), with the kind as seen from the signed vector."""
    m = terms_of(v)
    if len(m) != 1:
        return None
    (mono, c), = m.items()
    if len(mono) != 1 or mono[0][1] != 1 or abs(c) != 1:
        return None
    n = callname(mono[0][0])
    if n not in ('minCoeff', 'maxCoeff'):
        return None
    k = n[:3]
    if c < 0:
        k = 'max' if k == 'min' else 'min'
    return k, int(c), mono[0][0].a[1]


def square_of(t):
    """t = trace of the square of a matrix: ('sq', M)."""
    n = callname(t)
    if n == 'trace':
        x = strip(t.a[1])
        if x.op == 'mm' and len(x.a) == 2 and x.a[0] is x.a[1]:
            return x.a[0]
        if callname(x) == 'Multiply' and x.a[1] is x.a[2]:
            return x.a[1]
    if n == 'squaredNorm':
        return t.a[1]
    if n == 'TraceInnerProduct' and callname(t.a[1]) == 'QuadraticRepresentation' and t.a[1].a[2] is t.a[2]:
        return mk('pair', t.a[1].a[1], t.a[2])
    return None


def trace_of(t):
    n = callname(t)
    if n == 'trace':
        return strip(t.a[1])
    if n == 'sum':
        return t.a[1]
    if n == 'TraceInnerProduct':
        return mk('pair', t.a[1], t.a[2])
    return None


def linear(v):
    """{('sq'|'tr'|'other', subject): coefficient}; None if not linear in traces."""
    out = {}
    for mono, c in terms_of(v).items():
        if len(mono) == 0:
            k = ('const', None)
        elif len(mono) == 1 and mono[0][1] == 1:
            t = mono[0][0]
            s, r = square_of(t), trace_of(t)
            k = ('sq', s) if s is not None else ('tr', r) if r is not None else ('other', t)
        else:
            return None
        if k in out:
            return None
        out[k] = c
    return out


def unpow(v):
    mp = {}
    for x in subterms(v):
        if callname(x) == 'pow' and len(x.a) == 3 and isc(x.a[2]) and cval(x.a[2]) == 2:
            mp[x] = mul(x.a[1], x.a[1])
    return subst(v, mp) if mp else v


def one(v):
    """The weight of the identity in a geodesic step is one."""
    mp = {x: ONE for x in subterms(v) if x.op == 'i' and x.a[0].op == 'f' and x.a[0].a[1] == 'e_weight'}
    return subst(v, mp) if mp else v


def maximum(v):
    """('max'|'min', x, y) of a selection between two values."""
    if v.op == 'ite' and v.a[0].op == 'fgt0':
        x, y = v.a[1], v.a[2]
        d = v.a[0].a[0]
        if d is sub(x, y):
            return 'max', x, y
        if d is sub(y, x):
            return 'min', x, y
    if callname(v) in ('max', 'min', 'fmax', 'fmin') and len(v.a) == 3:
        return callname(v)[-3:], v.a[1], v.a[2]
    return None


def atomset(v):
    return {t for m in terms_of(v) for t, p in m}


def eigen(R, K, f, v, rank):
    lo, hi = extreme(v['lambda_min']), extreme(v['lambda_max'])
    sign = None
    if lo and hi:
        same = lo[2] is hi[2]
        ok = True if (hi[0], lo[0]) == ('max', 'min') and same and lo[1] == hi[1] else None
        if same and ((hi[0], lo[0]) != ('max', 'min') or lo[1] != hi[1]):
            ok = False
        R.verdict(ok, K + ':extreme eigenvalues', f.loc, 'lambda_max is the %simum and lambda_min the %simum of %s' % (
            hi[0], lo[0], 'the same vector' + ('' if lo[1] == hi[1] else ' with different signs') if same else 'different vectors'))
        sign = hi[1] if lo[1] == hi[1] else None
    else:
        R.und(K + ':extreme eigenvalues', f.loc, 'not extreme values of a vector')
    # fixed rank two: both eigenvalues are known
    if isc(rank) and cval(rank) == 2:
        for fld, want in (('trace', add(v['lambda_max'], v['lambda_min'])),
                          ('frobenius_norm_squared', add(mul(v['lambda_max'], v['lambda_max']), mul(v['lambda_min'], v['lambda_min'])))):
            d = sub(unpow(v[fld]), want)
            R.verdict(True if isc(d) and cval(d) == 0 else False if atomset(unpow(v[fld])) <= atomset(want) else None, '%s:%s' % (K, fld), f.loc,
                      '%s is not %s of the two eigenvalues' % (fld, 'the sum' if fld == 'trace' else 'the sum of squares'))
        return
    tr, fr = linear(v['trace']), linear(v['frobenius_norm_squared'])
    M = None
    if tr is not None and len(tr) == 1 and list(tr)[0][0] == 'tr':
        M = list(tr)[0][1]
        c = tr[('tr', M)]
        want = sign if sign is not None else -1 if M.op == 'pair' else None
        R.verdict(None if want is None else c == want, K + ':trace', f.loc, 'the trace is multiplied by %s, the eigenvalues by %s' % (c, want))
    else:
        R.und(K + ':trace', f.loc, 'not a trace')
    if fr is not None and len(fr) == 1 and list(fr)[0][0] == 'sq':
        (_, S), c = list(fr.items())[0]
        R.verdict(False if c != 1 else True if S is M else None, K + ':frobenius_norm_squared', f.loc, 'not the trace of the square of the matrix whose trace is reported')
    elif fr is not None and len(fr) == 1 and list(fr)[0][0] == 'tr' and list(fr)[0][1] is M and M is not None:
        R.bad(K + ':frobenius_norm_squared', f.loc, 'the trace of the matrix instead of the trace of its square')
    else:
        R.und(K + ':frobenius_norm_squared', f.loc, 'not the trace of a square')


def shift(v):
    """|c + extreme(X)| or the same without the absolute value where it is not needed: (sign, c, kind, X, sound)."""
    sure = callname(v) in ('fabs', 'abs')
    if sure:
        v = v.a[1]
    m = terms_of(v)
    ext = [k for k in m if len(k) == 1 and callname(k[0][0]) in ('minCoeff', 'maxCoeff')]
    if len(ext) != 1 or abs(m[ext[0]]) != 1 or ext[0][0][1] != 1:
        return None
    t = ext[0][0][0]
    c, kind = m[ext[0]], callname(t)[:3]
    # without an absolute value the upper end must count positively and the lower end negatively
    return c, scale(sub(v, scale(t, c)), c), kind, t.a[1], sure or (kind == 'max') == (c > 0)


def spin(inf, sq):
    """normsqrd against the two eigenvalues u +- v of a spin factor; None where they are not of this form."""
    mx = maximum(inf)
    if not mx or any(callname(x) not in ('fabs', 'abs') for x in mx[1:]):
        return None
    x, y = mx[1].a[1], mx[2].a[1]
    d = sub(unpow(sq), add(mul(x, x), mul(y, y)))
    if isc(d) and cval(d) == 0:
        return True
    m = terms_of(sq)
    if len(m) != 1:
        return None
    (mono, c), = m.items()
    if len(mono) != 1 or mono[0][1] != 1 or callname(mono[0][0]) not in ('squaredNorm', 'norm'):
        return None
    D = mono[0][0].a[1]
    plain = callname(mono[0][0]) == 'squaredNorm'
    vals = pieces(D)
    if len(vals) == 2 and {id(v) for v in vals} == {id(x), id(y)}:
        return plain and c == 1
    # eigenvalues from the head and the norm of the tail of one vector
    for s in (y, neg(y)):
        u, v = scale(add(x, s), 0.5), scale(sub(x, s), 0.5)
        for h, t in ((u, v), (v, u)):
            t = t if t.op == 'call' else neg(t)
            if callname(t) == 'norm' and h.op == 'get' and any(x is base(D) for x in subterms(h)) and any(x is base(D) for x in subterms(t)):
                return plain and c == 2
    return None


def pieces(D):
    vals = []
    while D.op == 'upd' and D.a[1] == 'e':
        vals.append(D.a[3])
        D = D.a[0]
    return vals


def lone(inf, sq):
    """norminfd is the absolute value of one of the two eigenvalues whose squares are summed."""
    return callname(inf) in ('fabs', 'abs') and callname(sq) == 'squaredNorm' and len(pieces(sq.a[1])) == 2 and \
        any(x is inf.a[1] for x in pieces(sq.a[1]))


def base(t):
    while t.op in ('get', 'upd'):
        t = t.a[0]
    return t


def norms(R, K, f, v, rank):
    inf, sq = v['norminfd'], v['normsqrd']
    D = None
    x = extreme(inf)
    if x is not None and x[1] == 1 and callname(x[2]) in ('abs', 'cwiseAbs'):
        D = x[2].a[1]
        R.verdict(x[0] == 'max', K + ':norminfd', f.loc, 'the smallest instead of the largest entry')
    elif x is not None:
        R.bad(K + ':norminfd', f.loc, 'an extreme value without its absolute value: the other end of the spectrum is ignored')
    else:
        mx = maximum(inf)
        if mx:
            a, b = shift(mx[1]), shift(mx[2])
            ok = None
            if mx[0] == 'min':
                ok = False
            elif a and b and a[3] is b[3]:
                ok = a[1] is b[1] and {a[2], b[2]} == {'min', 'max'} and a[4] and b[4]
            elif callname(mx[1]) in ('fabs', 'abs') and callname(mx[2]) in ('fabs', 'abs'):
                ok = False if mx[1] is mx[2] else True
            R.verdict(ok, K + ':norminfd', f.loc, 'not the larger of the absolute values at the two ends of the spectrum')
        elif shift(inf) or lone(inf, sq):
            R.bad(K + ':norminfd', f.loc, 'only one end of the spectrum is used')
        else:
            R.und(K + ':norminfd', f.loc, 'form not recognised')
    pair = spin(inf, sq)
    l = linear(sub(one(sq), rank) if rank is not None else one(sq))
    if D is not None and callname(sq) in ('squaredNorm', 'norm', 'lpNorm'):
        S = sq.a[1]
        other = S is not D and not isc(sub(S, D)) and simple(sub(S, D)) or isc(sub(S, D)) and cval(sub(S, D)) != 0
        R.verdict(callname(sq) == 'squaredNorm' and not other and (S is D or None), K + ':normsqrd', f.loc, 'not the squared norm of the direction')
    elif pair is not None:
        R.verdict(pair, K + ':normsqrd', f.loc, 'not the sum of the squares of the two eigenvalues whose larger absolute value is norminfd')
    elif l is not None and l and all(k[0] in ('sq', 'tr') for k in l):
        sqs, trs = [k for k in l if k[0] == 'sq'], [k for k in l if k[0] == 'tr']
        same = len(sqs) == 1 and (not trs or len(trs) == 1 and trs[0][1] is sqs[0][1])
        R.verdict((l == {sqs[0]: 1, ('tr', sqs[0][1]): 2}) if same else None, K + ':normsqrd', f.loc,
                  'not tr(M^2) + 2 tr(M) + rank, the squared norm of M plus the identity')
    elif l is not None and {k[0] for k in l} <= {'sq', 'tr', 'const', 'other'} and any(k[0] == 'sq' for k in l) and any(k[0] == 'tr' for k in l):
        sqs, trs = [k for k in l if k[0] == 'sq'], [k for k in l if k[0] == 'tr']
        same = len(sqs) == 1 and len(trs) == 1 and trs[0][1] is sqs[0][1]
        rest = [k for k in l if k[0] in ('const', 'other')]
        R.verdict(False if same and all(k[0] == 'const' or k[1] is rank for k in rest) else None, K + ':normsqrd', f.loc,
                  'tr(M^2) + 2 tr(M) is not completed by the rank')
    else:
        R.und(K + ':normsqrd', f.loc, 'form not recognised')


def inputs(R, K, f, v, root):
    """Every summary depends on the iterate, the point and the weight of the cost."""
    need = {}
    for p in f.params[1:-1]:
        t = f.tu.t(p['t'])
        if 'StepOptions' in t['s']:
            need['the weight of the affine term'] = lambda x: x.op == 'f' and x.a[1] == 'c_weight'
        else:
            what = 'the weight of the affine term' if t['s'].replace('const ', '') == 'double' else 'the point y'
            need[what] = lambda x, n=p['n']: x.op == 'p' and x.a[0] == n
    for fld, val in sorted(v.items()):
        sub_ = list(subterms(val))
        miss = [w for w, pred in sorted(need.items()) if not any(pred(x) for x in sub_)]
        if not any(role(p, SCRATCH) == 'iterate' for p in reads(val, root)):
            miss.append('the iterate')
        # what a loop left behind may depend on anything
        R.verdict(True if not miss else None if any(x.op in ('lp', 'fresh', 'havoc') for x in sub_) else False, '%s:%s depends on its inputs' % (K, fld), f.loc, '%s does not depend on %s' % (fld, ', '.join(miss)))


def check(P, R):
    n = 0
    for k, ops in sorted(kinds(P).items()):
        K = simplek(k)
        if 'PrepareStep' not in ops or 'GetWeightedSlackEigenvalues' not in ops:
            continue
        rank = None
        if 'Rank' in ops:
            f = ops['Rank']
            try:
                vs = [o.val for o in rets(Interp(P, Eff('o', SCRATCH)).run(f, [mk('pt', mk('p', ops['PrepareStep'].params[0]['n'] or 'arg0'))]))]
                rank = vs[0] if vs and all(v is vs[0] for v in vs) else None
            except (Undecided, RecursionError) as x:
                R.und(K + ':Rank', f.loc, str(x))
        zero = rank is not None and isc(rank) and cval(rank) == 0
        for op, flds in (('PrepareStep', NORM), ('GetWeightedSlackEigenvalues', EIG)):
            f = ops[op]
            key = K + ':' + op
            q = mk('pt', mk('p', f.params[-1]['n'] or 'arg%d' % (len(f.params) - 1)))
            cl = Eff(f.params[0]['n'] or 'arg0', SCRATCH)
            try:
                outs = rets(Interp(P, cl).run(f, None, None, opts(f, 0) if op == 'PrepareStep' else State()))
            except (Undecided, RecursionError) as x:
                R.und(key, f.loc, str(x))
                continue
            n += 1
            if op == 'GetWeightedSlackEigenvalues' and (zero or rank is None):
                continue
            # a path that ends in a failure of the constraint reports nothing
            for fld in flds:
                loc = mk('f', q, fld)
                old = mk('i', loc)
                bad = None
                for o in outs:
                    v = o.st.read(loc)
                    if v is old:
                        bad = '%s is not set' % fld
                    elif any(x is old for x in subterms(v)):
                        bad = bad or '%s depends on what the structure held before' % fld
                R.verdict(bad is None, '%s:%s set' % (key, fld), f.loc, '%s on some path' % bad if bad else '')
                if zero and bad is None:
                    vs = [o.st.read(loc) for o in outs]
                    R.verdict(True if all(isc(v) and cval(v) == 0 for v in vs) else False if any(isc(v) for v in vs) else None,
                              '%s:%s zero' % (key, fld), f.loc, '%s of a constraint without rank is not zero' % fld)
            if zero:
                continue
            for o in outs[:1] if len(outs) == 1 else []:
                v = {fld: o.st.read(mk('f', q, fld)) for fld in flds}
                if any(x.op == 'i' and x.a[0].op == 'f' and x.a[0].a[0] is q for x in v.values()):
                    continue
                inputs(R, key, f, v, cl.root)
                (norms if op == 'PrepareStep' else eigen)(R, key, f, v, rank)
            if len(outs) != 1:
                R.und(key + ':values', f.loc, '%d paths' % len(outs))
    R.floor('summaries analysed', n, 8)
